// The parts of libstdc++'s streams which exist only as machine code: ios_base and the classic locale with the facets number output needs.
// Linked only into harnesses which execute streams; everything else of the streams is executed from the headers.
#include <ios>
#include <iterator>
#include <locale>
#include <ostream>
#include <sstream>
#include <new>
namespace std {
// ---- ios_base
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
bool uncaught_exception() noexcept { return uncaught_exceptions() > 0; }
// ---- locale
size_t locale::id::_M_id() const throw() {
    static size_t last;
    if (!_M_index) _M_index = ++last;
    return _M_index - 1;
}
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
struct VfImpl { _Atomic_word refs; const locale::facet** facets; size_t size; const locale::facet** caches; char** names; };
static const locale::facet *vfFacets[64], *vfCaches[64];
static VfImpl vfClassic{1, vfFacets, 64, vfCaches, nullptr};
static bool vfReady;
void locale::_Impl::_M_install_cache(const facet* f, size_t i) { ((VfImpl*)this)->caches[i] = f; }
locale::locale() noexcept {
    _M_impl = (_Impl*)&vfClassic;
    if (!vfReady) {
        vfReady = true;
        vfFacets[std::ctype<char>::id._M_id()] = new std::ctype<char>(nullptr, false, 1);
        vfFacets[numpunct<char>::id._M_id()] = new numpunct<char>(1);
        vfFacets[num_put<char>::id._M_id()] = new num_put<char>(1);
    }
}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
// ---- ctype<char>
locale::id ctype<char>::id;
ctype<char>::ctype(const mask*, bool, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(nullptr), _M_widen_ok(0), _M_widen(), _M_narrow(), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
// ---- numpunct<char>
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
    _M_data = new __numpunct_cache<char>;
    _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false;
    _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template<> numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
} // namespace std
// standard streams: without a buffer (what is printed there is no part of a property) until a harness gives one to std::clog
alignas(16) __attribute__((used)) char vfCout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) __attribute__((used)) char vfCerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) __attribute__((used)) char vfClog[sizeof(std::ostream)] __asm__("_ZSt4clog");
static struct VfStandard {
    VfStandard() { for (auto p : {vfCout, vfCerr, vfClog}) new (p) std::ostream(nullptr); }
} vfStandard;
