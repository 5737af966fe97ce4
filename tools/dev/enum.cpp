#include "/verif/harness/common.hpp"
extern "C" {
#include <re/re.h>
}
extern "C" const char*__asan_default_options(){return "detect_leaks=0:handle_abort=0";}
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <sys/wait.h>
void run_case(Ctx&,u64){} const char *harness_name="pt";
typedef vector<vector<string>> Lv; // by size: list of strings; kinds: atom(quantifiable), seq
int main(int ac,char**av){ int N=atoi(av[1]); unsigned fl=ac>2?strtoul(av[2],0,16):0; int maxshow=ac>3?atoi(av[3]):60; double frac=ac>4?atof(av[4]):1;
 vector<string> at={"a","^","$","\\z","\n","b"}; if(getenv("AT")){at.clear();string s=getenv("AT");size_t p=0;while(p<=s.size()){size_t q=s.find(' ',p);if(q==string::npos)q=s.size();at.push_back(s.substr(p,q-p)=="NL"?"\n":s.substr(p,q-p));p=q+1;}}
 vector<string> qs={"*","+","?","{2}","{2,3}","{2,}","{0,2}"};
 // P[n]: pieces; C[n]: concats; A[n]: alts
 Lv P(N+1),C(N+1),A(N+1);
 for(int n=1;n<=N;n++){ if(n==1)P[1]=at; 
  if(n>=2){ for(auto&q:qs)for(auto&x:P[n-1]) { if(x.size()==1&&x!="^"&&x!="$")P[n].push_back(x+q); } }
  if(n>=3) { for(auto&x:A[n-2]) if(x.size()>1||x=="^"||x=="$"||1) P[n].push_back("(?:"+x+")"); for(auto&q:qs) if(n>=3&&n-2>=1) for(auto&x:A[n-2]) if(!(x.size()==1&&x!="^"&&x!="$")) P[n].push_back("(?:"+x+")"+q);} 
  C[n]=P[n]; for(int k=1;k<n;k++)for(auto&x:P[k])for(auto&y:C[n-k])C[n].push_back(x+y);
  A[n]=C[n]; for(int k=1;k<n-0;k++){ if(n-k-0>=1) for(auto&x:C[k])for(auto&y:A[n-k]) if(n>=2) { if(k+ (n-k) ==n) A[n].push_back(x+"|"+y);} } if(n>=2) for(auto&x:C[n-1]) {A[n].push_back(x+"|");A[n].push_back("|"+x);} }
 vector<string> subj{""}; for(size_t i=0;i<subj.size();i++) if(subj[i].size()<4) for(char c:string("ab\n")) subj.push_back(subj[i]+c);
 vector<string> all; for(int n=1;n<=N;n++) for(auto&x:A[n]) all.push_back(x); Rng r(7); if(frac<1){vector<string> b; for(auto&x:all) if(r.below(1000000)<frac*1000000) b.push_back(x); all=b;}
 fprintf(stderr,"%zu patterns\n",all.size());
 // 8 procs
 int W=8; vector<int> pids; for(int w=0;w<W;w++){ int pid=fork(); if(!pid){ FILE*o=fopen(("/tmp/pt/out."+std::to_string(w)).c_str(),"w"); size_t n=0,ok=0,unsup=0,dif=0,crash=0,sk=0; size_t i=w; 
  while(i<all.size()){ int pf[2]; pipe(pf); int c=fork(); if(!c){ close(pf[0]); freopen("/dev/null","w",stderr); FILE*po=fdopen(pf[1],"w"); for(;i<all.size();i+=W){ const string&t=all[i]; fprintf(po,"B %zu\n",i); fflush(po);
     int err;PCRE2_SIZE off;uint32_t op=0; if(fl&RE_ANCHORED)op|=PCRE2_ANCHORED|PCRE2_ENDANCHORED; if(fl&RE_SINGLE)op|=PCRE2_DOTALL; auto*cd=pcre2_compile((PCRE2_SPTR)t.data(),t.size(),op,&err,&off,NULL); if(!cd){fprintf(po,"S\n");continue;} 
     StrSrc s{&t,0};re_err e;memset(&e,0,sizeof e);struct fsm*f=re_comp(RE_PCRE,str_getc,&s,NULL,(enum re_flags)fl,&e); if(!f){fprintf(po,"U %s\n",re_strerror(e.e));pcre2_code_free(cd);continue;}
     Auto a=snapshot(f);fsm_free(f);auto*md=pcre2_match_data_create_from_pattern(cd,NULL);string bad;for(auto&w:subj){bool x=pcre2_match(cd,(PCRE2_SPTR)w.data(),w.size(),0,0,md,NULL)>=0,y=model_run(a,w,OUT_END).end;if(x!=y){bad=esc(w)+(y?" lib":" pcre");break;}} if(bad.empty())fprintf(po,"O\n");else fprintf(po,"D %s\n",bad.c_str()); pcre2_match_data_free(md);pcre2_code_free(cd);} fclose(po);_exit(0);} 
   close(pf[1]); FILE*pi=fdopen(pf[0],"r"); char b[500]; size_t cur=i; bool done=true; while(fgets(b,500,pi)){ if(b[0]=='B'){cur=strtoull(b+2,0,10);done=false;n++;} else {done=true; if(b[0]=='O')ok++; if(b[0]=='S')sk++; if(b[0]=='U')unsup++; if(b[0]=='D'){dif++;fprintf(o,"%zu D %s %s",all[cur].size(),esc(all[cur]).c_str(),b+2);}}} fclose(pi); int st; waitpid(c,&st,0); if(!done){crash++;fprintf(o,"%zu CRASH %s %x\n",all[cur].size(),esc(all[cur]).c_str(),st);} if(done&&WIFEXITED(st))break; i=cur+W; }
  fprintf(o,"999999 STAT n %zu ok %zu unsup %zu diff %zu crash %zu skip %zu\n",n,ok,unsup,dif,crash,sk); fclose(o); _exit(0);} pids.push_back(pid);} for(int p:pids){int st;waitpid(p,&st,0);} 
 system(("cat /tmp/pt/out.? | sort -n | grep -v STAT | tee /tmp/pt/all.txt | head -"+std::to_string(maxshow)+"; cat /tmp/pt/out.? | grep STAT").c_str()); }
