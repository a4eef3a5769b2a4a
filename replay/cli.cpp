// the command line tools, run as they are (main renamed) in forked children inside the scratch directory the runner creates.
// argv: mode seed scale   mode: params (ranges, flags) | files (contents of the output files)      -DHRG selects genhrg
#define main cli_main
#ifdef HRG
#include CLI_MAIN
#else
#include CLI_MAIN
#endif
#undef main
#include "common.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <iterator>
Rep R; std::mt19937_64 G;
typedef std::map<std::string,std::string> Par; typedef std::vector<std::pair<int,int>> EL;
std::string slurp(const std::string&f){ std::ifstream i(f,std::ios::binary); return std::string(std::istreambuf_iterator<char>(i),{}); }
bool exists(const std::string&f){ struct stat s; return stat(f.c_str(),&s)==0; }
template<class F> int child(F f){ fflush(stdout); pid_t p=fork(); if(!p){ int fd=open("/dev/null",O_WRONLY); dup2(fd,2); dup2(fd,1); alarm(60); int r=1; try{ r=f(); }catch(...){ _exit(77); } exit(r); } int st; waitpid(p,&st,0); return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
std::string show(const std::vector<std::string>&a){ std::string r; for(auto&x:a) r+=(r.empty()?"":" ")+(x.empty()?std::string("\"\""):x); return r; }
int cli(std::vector<std::string> a){ return child([&]{ std::vector<char*> v; a.insert(a.begin(),"cli"); for(auto&x:a) v.push_back(&x[0]); v.push_back(nullptr); return cli_main((int)a.size(),v.data()); }); }
std::vector<std::string> argv_(const Par&p,bool shuffle=true){ std::vector<std::pair<std::string,std::string>> q(p.begin(),p.end()); if(shuffle) std::shuffle(q.begin(),q.end(),G); std::vector<std::string> r; for(auto&x:q){ r.push_back("-"+x.first); r.push_back(x.second); } return r; }
// the parameters the tool documents, with their defaults
struct Q{ int n=10000; double deg=10; int threads=1,sseed=1400; bool edge=false; std::string file="graph";
#ifdef HRG
 double alpha=0.75,t=0; int rseed=12,aseed=130; bool nkr=false,coord=false;
#else
 int d=1; double ple=2.5,alpha=std::numeric_limits<double>::infinity(); int wseed=12,pseed=130; bool dot=false;
#endif
};
Q parse(const Par&p){ Q q; auto g=[&](const char*k)->const std::string*{ auto i=p.find(k); return i==p.end()||i->second.empty()?nullptr:&i->second; };
 auto I=[&](const char*k,int&x){ if(auto s=g(k)) x=(int)strtol(s->c_str(),0,10); }; auto D=[&](const char*k,double&x){ if(auto s=g(k)) x=strtod(s->c_str(),0); }; auto B=[&](const char*k,bool&x){ if(auto s=g(k)) x=*s=="1"; };
 I("n",q.n); D("deg",q.deg); I("threads",q.threads); I("sseed",q.sseed); B("edge",q.edge); if(auto s=g("file")) q.file=*s; D("alpha",q.alpha);
#ifdef HRG
 D("t",q.t); I("rseed",q.rseed); I("aseed",q.aseed); B("nkr",q.nkr); B("coord",q.coord);
#else
 I("d",q.d); D("ple",q.ple); I("wseed",q.wseed); I("pseed",q.pseed); B("dot",q.dot);
#endif
 return q; }
// the graph the tool has to produce, from the library and a second writer, in a child of its own
int expected(const Q&q,const std::string&f){ return child([&]{ omp_set_num_threads(q.threads); FILE*o=fopen(f.c_str(),"w");
#ifdef HRG
 double Rr=q.nkr? hypergirgs::calculateRadiusLikeNetworKit(q.n,q.alpha,q.t,q.deg):hypergirgs::calculateRadius(q.n,q.alpha,q.t,q.deg); auto r=hypergirgs::sampleRadii(q.n,q.alpha,Rr,q.rseed,q.threads>1); auto a=hypergirgs::sampleAngles(q.n,q.aseed,q.threads>1); auto e=hypergirgs::generateEdges(r,a,q.t,Rr,q.sseed);
 fprintf(o,"%d %zu\n",q.n,e.size()); for(auto&x:e) fprintf(o,"%d %d\n",x.first,x.second); for(int i=0;i<q.n;i++) fprintf(o,"%a %a\n",r[i],a[i]);
#else
 auto w=girgs::generateWeights(q.n,q.ple,q.wseed,q.threads>1); auto x=girgs::generatePositions(q.n,q.d,q.pseed); girgs::scaleWeights(w,q.deg,q.d,q.alpha); auto e=girgs::generateEdges(w,x,q.alpha,q.sseed);
 fprintf(o,"%d %zu\n",q.n,e.size()); for(auto&y:e) fprintf(o,"%d %d\n",y.first,y.second); for(int i=0;i<q.n;i++){ fprintf(o,"%a",w[i]); for(double c:x[i]) fprintf(o," %a",c); fprintf(o,"\n"); }
#endif
 fclose(o); return 0; }); }
struct Want{ long n=0,m=0; EL e; std::vector<std::vector<double>> rows; };
Want readw(const std::string&f,int cols){ Want w; std::ifstream i(f); i>>w.n>>w.m; for(long k=0;k<w.m;k++){ int a,b; i>>a>>b; w.e.push_back({a,b}); } std::string t; for(long k=0;k<w.n;k++){ std::vector<double> r; for(int c=0;c<cols;c++){ i>>t; r.push_back(strtod(t.c_str(),0)); } w.rows.push_back(r); } return w; }
EL norm(EL e){ for(auto&x:e) if(x.first>x.second) std::swap(x.first,x.second); std::sort(e.begin(),e.end()); return e; }
// line-exact parse of an edge list
std::string edgefile(const std::string&f,const Want&w){ std::string s=slurp(f); std::istringstream in(s); std::string l; if(!std::getline(in,l)||l!=cat(w.n," ",w.m)) return cat("the first line is '",l,"' instead of '",w.n," ",w.m,"'"); if(!std::getline(in,l)||!l.empty()) return "no empty second line";
 EL e; while(std::getline(in,l)){ char*p; long a=strtol(l.c_str(),&p,10),b=strtol(p,&p,10); if(*p||l!=cat(a," ",b)) return "malformed line '"+l+"'"; e.push_back({(int)a,(int)b}); } if(s.empty()||s.back()!='\n') return "the last line is not ended"; if(norm(e)!=norm(w.e)) return cat("the ",e.size()," edges listed are not the ",w.m," edges of the graph"); return ""; }
#ifdef HRG
std::string coordfile(const std::string&f,const Want&w){ std::ifstream in(f); std::string l; long k=0; while(std::getline(in,l)){ if(k>=w.n) return cat("more than ",w.n," lines"); char*p; double a=strtod(l.c_str(),&p),b=strtod(p,&p); if(*p) return "malformed line '"+l+"'"; if(a!=w.rows[k][0]||b!=w.rows[k][1]) return cat("line ",k," '",l,"' does not read back as ",w.rows[k][0]," ",w.rows[k][1]); k++; } return k==w.n?"":cat(k," lines for ",w.n," vertices"); }
#else
std::string dotfile(const std::string&f,const Want&w,int d){ std::ifstream in(f); std::string l; std::vector<std::string> L; while(std::getline(in,l)) L.push_back(l); size_t i=0; auto skip=[&]{ while(i<L.size()&&(L[i].empty()||L[i].find("overlap")!=std::string::npos)) i++; };
 if(L.empty()||L[0].compare(0,5,"graph")!=0||L[0].find('{')==std::string::npos) return "no 'graph ... {' line"; i=1; skip();
 for(long v=0;v<w.n;v++,i++){ if(i>=L.size()) return cat("no node line for vertex ",v); char b[200]; int u=-1,off=0; double wt; if(sscanf(L[i].c_str()," %d [label=\"%lf\", pos=\"%n",&u,&wt,&off)<2||u!=v||!off) return cat("line '",L[i],"' is not the node line of vertex ",v); if(std::fabs(wt-w.rows[v][0])>0.00500001) return cat("vertex ",v," has label ",wt,", its weight is ",w.rows[v][0]);
  const char*p=L[i].c_str()+off; for(int k=0;k<d;k++){ char*q; double x=strtod(p,&q); if(q==p||std::fabs(x-w.rows[v][1+k])>0.00000050001) return cat("vertex ",v," line '",L[i],"' does not give coordinate ",k," = ",w.rows[v][1+k]); p=q; if(*p!=(k+1<d?',':'"')) return cat("vertex ",v,": malformed position in '",L[i],"'"); p++; } if(std::string(p)!="];") return "malformed node line '"+L[i]+"'"; (void)b; }
 EL e; for(skip();i<L.size()&&L[i]!="}";i++){ int a,b,off=0; if(sscanf(L[i].c_str()," %d -- %d ;%n",&a,&b,&off)<2) return "malformed edge line '"+L[i]+"'"; if(L[i].back()!=';') return "malformed edge line '"+L[i]+"'"; e.push_back({a,b}); } if(i>=L.size()) return "no closing brace"; if(norm(e)!=norm(w.e)) return cat("the ",e.size()," edge lines are not the ",w.m," edges of the graph"); return ""; }
#endif
#ifdef HRG
const int COLS=2; int cols(const Q&){ return 2; } bool coordflag(const Q&q){ return q.coord; } const char*EXT=".hyp"; const char*EXTFLAG="coord";
std::string extra(const Q&,const std::string&f,const Want&w){ return coordfile(f,w); }
#else
int cols(const Q&q){ return 1+q.d; } bool coordflag(const Q&q){ return q.dot; } const char*EXT=".dot"; const char*EXTFLAG="dot";
std::string extra(const Q&q,const std::string&f,const Want&w){ return dotfile(f,w,q.d); }
#endif
void clean(const std::string&f){ for(const char*e:{".txt",".dot",".hyp"}) unlink((f+e).c_str()); unlink("want"); }
// run and compare with the library; a valid call
void good(const Par&p){ Q q=parse(p); auto a=argv_(p); std::string k=show(a); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; if(R.ev%20==1) R.sample(k); clean(q.file);
 int rc=cli(a); if(rc){ R.fail(cat("arguments '",k,"' are documented as valid, exit status ",rc)); return; }
 if(exists(q.file+".txt")!=q.edge){ R.fail(cat("arguments '",k,"': edge list ",q.edge?"not written":"written without being asked for")); return; }
 if(exists(q.file+EXT)!=coordflag(q)){ R.fail(cat("arguments '",k,"': ",EXT," file ",coordflag(q)?"not written":"written without being asked for")); return; }
 if(expected(q,"want")) { R.fail(cat("arguments '",k,"': the library fails on these parameters")); return; }
 Want w=readw("want",cols(q)); std::string m; if(q.edge&&!(m=edgefile(q.file+".txt",w)).empty()) R.fail(cat("arguments '",k,"': edge list: ",m)); if(coordflag(q)&&!(m=extra(q,q.file+EXT,w)).empty()) R.fail(cat("arguments '",k,"': ",EXT," file: ",m)); clean(q.file); }
void bad(const Par&p,const std::string&why){ Q q=parse(p); auto a=argv_(p); std::string k=show(a); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; clean(q.file); int rc=cli(a); if(rc==0) R.fail(cat("arguments '",k,"' accepted although ",why)); else if(rc>=1000||rc==77) R.fail(cat("arguments '",k,"' (",why,") crash with status ",rc," instead of being rejected")); if(exists(q.file+".txt")||exists(q.file+EXT)) R.fail(cat("arguments '",k,"': output written although ",why)); clean(q.file); }
int main(int c,char**v){ std::string mode=v[1]; G.seed(atoi(v[2])); double scale=atof(v[3]); setvbuf(stdout,0,_IOLBF,0); auto U=[&]{ return (G()>>11)/9007199254740992.0; };
 int maxt=0; { if(child([&]{ FILE*o=fopen("maxt","w"); fprintf(o,"%d",omp_get_max_threads()); fclose(o); return 0; })==0) maxt=atoi(slurp("maxt").c_str()); unlink("maxt"); if(maxt<1) maxt=1; }
 auto base=[&]{ Par p; p["n"]=cat(20+G()%80); p["deg"]=cat(1+(int)(G()%10)); p["edge"]="1"; p["file"]="out"; p[EXTFLAG]="1"; return p; }; typedef std::vector<std::string> S;
 auto random_=[&]{ Par p=base(); p["sseed"]=cat(G()%5000); p["threads"]=cat(1+G()%maxt);
#ifdef HRG
  p["alpha"]=cat(0.55+0.45*U()); if(G()%2) p["t"]=cat(0.05+0.9*U()); p["rseed"]=cat(G()%5000); p["aseed"]=cat(G()%5000); if(G()%3==0){ p["nkr"]="1"; p["n"]=cat(3000+G()%2000); }
#else
  p["d"]=cat(1+G()%5); p["ple"]=cat(2.05+0.95*U()); if(G()%2) p["alpha"]=cat(1.2+5*U()); p["wseed"]=cat(G()%5000); p["pseed"]=cat(G()%5000); if(G()%2) p["deg"]=cat(1+2*U());
#endif
  return p; };
 if(mode=="params"){
  auto range=[&](const std::string&k,S in,S out){ for(auto&x:in){ Par p=base(); p[k]=x; good(p); } for(auto&x:out){ Par p=base(); p[k]=x; bad(p,cat(k," = ",x," is outside its documented range")); } };
#ifdef HRG
  range("alpha",{"0.51","0.75","0.999","1","1.0"},{"0.5","0.49999","0","-1","1.0000001","1.5","inf","-inf","nan","-nan"});
  range("t",{"0","0.0","0.001","0.5","0.99"},{"1","1.0","1.00001","2","-0.0001","-1","inf","nan","-nan"});
  { S seeds={"rseed","aseed","sseed"}; for(auto&k:seeds) for(auto x:{"0","1","77"}){ Par p=base(); p["t"]="0.4"; p[k]=x; good(p);} }
#else
  range("d",{"1","2","3","4","5"},{"0","6","-1","-5","7","100"});
  range("ple",{"2.001","2.5","2.9999","3","3.0"},{"2","2.0","1.9999","3.0000001","4","0","-2.5","inf","-inf","nan","-nan"});
  range("alpha",{"1.01","1.5","5","inf","infinity"},{"1","1.0","0.99999","0","-3","-inf","nan","-nan"});
  { S seeds={"wseed","pseed","sseed"}; for(auto&k:seeds) for(auto x:{"0","1","77"}){ Par p=base(); p["alpha"]="1.7"; p["d"]="2"; p[k]=x; good(p);} }
#endif
  { Par p=base(); p["n"]="30"; for(auto x:{"1","1.0","2.5","15"}){ p["deg"]=x; good(p); } for(auto x:{"30","30.5","1000","0.9999","0","-1","inf","-inf","nan"}){ p["deg"]=x; bad(p,cat("deg = ",x," is outside [1,n) for n=30")); } }
  range("threads",{"1",cat(maxt)},{"0","-1",cat(maxt+1),"100000"});
  for(auto s:{"edge",EXTFLAG}) for(auto x:{"0","1",""}){ Par p=base(); p[s]=x; if(*x) good(p); else { p.erase(s); good(p); } }
  { Par p=base(); p.erase("n"); p["deg"]="3"; good(p); } { Par p=base(); p.erase("deg"); good(p); } { Par p; p["edge"]="1"; good(p); } { Par p=base(); p["file"]="other.name"; good(p); p.erase("file"); good(p); }
  for(int i=0;i<12*scale;i++) good(random_());
 }
 if(mode=="files"){
  for(int i=0;i<40*scale;i++) good(random_());
  { Par p=base(); p["n"]="4000"; good(p); }
#ifdef HRG
  { Par p=base(); p["n"]="6000"; p["deg"]="30"; good(p); }
#endif
  for(auto s:{"edge",EXTFLAG}){ Par p=base(); p["edge"]="0"; p[EXTFLAG]="0"; p[s]="1"; p["file"]="nodir/x"; auto a=argv_(p); std::string k=show(a); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; if(cli(a)==0) R.fail(cat("arguments '",k,"': the file cannot be opened but the tool reports success")); }
#ifndef HRG
  { R.ev++; int rc=child([&]{ try{ girgs::saveDot({1,2},{{0.1},{0.2}},{{0,1}},"nodir/x.dot"); }catch(std::exception&){ return 0; } return 5; }); if(rc) R.fail("saveDot reports no error for a file that cannot be opened"); }
  for(int i=0;i<30*scale;i++){ int n=G()%30,d=1+G()%5; std::vector<double> w; std::vector<std::vector<double>> x; EL e; Want W; W.n=n; for(int k=0;k<n;k++){ w.push_back(std::exp(8*U()-3)); x.push_back({}); for(int q=0;q<d;q++) x.back().push_back(U()); W.rows.push_back({w[k]}); W.rows[k].insert(W.rows[k].end(),x[k].begin(),x[k].end()); } for(int k=0;n&&k<(int)(G()%50);k++) e.push_back({(int)(G()%n),(int)(G()%n)}); W.e=e; W.m=e.size();
   std::string k=cat("saveDot n=",n," d=",d," edges=",e.size()); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct+=n>0; int rc=child([&]{ girgs::saveDot(w,x,e,"sd.dot"); return 0; }); if(rc){ R.fail(cat(k,": status ",rc)); continue; } std::string m=dotfile("sd.dot",W,d); if(!m.empty()) R.fail(cat(k,": ",m)); unlink("sd.dot"); }
#endif
 }
 return R.end(); }
