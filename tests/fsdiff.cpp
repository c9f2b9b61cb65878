#define VF_FS_NS vfm
#include "../sym/include/vf_fs.hpp"
#include <filesystem>
#include <cstdio>
#include <random>
namespace R = std::filesystem; namespace M = vfm;
static long bad=0, n=0;
#define CMP(x, y, what) do { n++; auto a=(x); auto b=(y); if (a!=b) { if (bad++<40) printf("%s: '%s' real '%s' model '%s'\n", what, s.c_str(), std::string(a).c_str(), std::string(b).c_str()); } } while(0)
std::string bs(bool b){return b?"1":"0";}
void one(const std::string& s, const std::string& t){
  R::path r(s), q(t); M::path m(s), k(t);
  CMP(r.string(), m.string(), "string"); CMP(r.filename().string(), m.filename().string(),"filename"); CMP(r.extension().string(), m.extension().string(),"ext");
  CMP(r.stem().string(), m.stem().string(),"stem"); CMP(r.parent_path().string(), m.parent_path().string(),"parent"); CMP(r.relative_path().string(), m.relative_path().string(),"rel");
  CMP(r.root_path().string(), m.root_path().string(),"rootp"); CMP(bs(r.has_filename()),bs(m.has_filename()),"hasfn"); CMP(bs(r.has_extension()),bs(m.has_extension()),"hasext");CMP(bs(r.has_parent_path()),bs(m.has_parent_path()),"haspar");
  CMP(bs(r.is_absolute()),bs(m.is_absolute()),"abs"); CMP(bs(r.has_relative_path()),bs(m.has_relative_path()),"hasrel"); CMP(bs(r.has_stem()),bs(m.has_stem()),"hasstem");
  CMP(r.lexically_normal().string(), m.lexically_normal().string(),"norm");
  CMP((r/q).string(), (m/k).string(), ("/ "+t).c_str()); CMP(r.lexically_relative(q).string(), m.lexically_relative(k).string(), ("lexrel "+t).c_str());
  { int ca=r.compare(q), cb=m.compare(k); CMP(bs(ca<0)+bs(ca>0), bs(cb<0)+bs(cb>0), ("compare "+t).c_str()); }
  if (t.find('/')==std::string::npos) { auto ra=r; ra.replace_extension(q); auto mb=m; mb.replace_extension(k); CMP(ra.string(), mb.string(), "replext"); }
  { auto ra=r; ra.remove_filename(); auto mb=m; mb.remove_filename(); CMP(ra.string(), mb.string(), "rmfn"); }
  { std::string sa,sb; for(auto&c:r) sa+="["+c.string()+"]"; for(auto&c:m) sb+="["+c.string()+"]"; CMP(sa,sb,"iter"); }
}
int main(){ const char al[]="/.a"; std::vector<std::string> all{""}; for(size_t i=0;i<all.size();i++) if(all[i].size()<6) for(int c=0;c<3;c++) all.push_back(all[i]+al[c]);
 for(auto&s:all) one(s, all[(s.size()*7919+ (size_t)(&s-all.data())*31)%all.size()]);
 std::mt19937 g(1); std::uniform_int_distribution<size_t> d(0,all.size()-1); for(int i=0;i<400000;i++) one(all[d(g)],all[d(g)]);
 printf("%ld comparisons, %ld differences\n",n,bad); return bad!=0; }
