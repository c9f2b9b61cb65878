// Prints how the client is stored, then its bytes, as the library serves them.
#include "system/IndexFS.hpp"
#include <array>
#include <cstdio>
#include <span>
int main() {
    auto file = webfront::fs::IndexFS::open("WebFront.js");
    if (!file) return 3;
    std::printf("%s\n", std::string(file->getEncoding()).c_str());
    std::array<char, 512> buf;
    while (auto n = file->read(buf)) std::fwrite(buf.data(), 1, n, stdout);
}
