#include "/verif/harness/common.hpp"
extern "C" {
#include <re/re.h>
}
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
extern "C" const char*__asan_default_options(){return "detect_leaks=0:handle_abort=0";}
void run_case(Ctx&,u64){}
const char *harness_name="pt";
static string un(const char *s){string o;for(;*s;s++)if(*s=='%'){unsigned x;sscanf(s+1,"%2x",&x);o+=(char)x;s+=2;}else o+=*s;return o;}
// pt flagshex pattern(%XX for bytes) ; enumerates all strings up to length L over alphabet
int main(int ac,char**av){unsigned fl=strtoul(av[1],0,16);string t=un(av[2]);string al=ac>3?un(av[3]):"ab\n";int L=ac>4?atoi(av[4]):4;
 StrSrc s{&t,0};re_err e;memset(&e,0,sizeof e);struct fsm*f=re_comp(RE_PCRE,str_getc,&s,NULL,(enum re_flags)fl,&e);
 if(!f){printf("refused %s\n",re_strerror(e.e));return 0;}
 Auto a=snapshot(f);uint32_t o=0;if(fl&RE_ICASE)o|=PCRE2_CASELESS;if(fl&RE_SINGLE)o|=PCRE2_DOTALL;if(fl&RE_EXTENDED)o|=PCRE2_EXTENDED;if(fl&RE_ANCHORED)o|=PCRE2_ANCHORED|PCRE2_ENDANCHORED;
 int err;PCRE2_SIZE off;auto*cd=pcre2_compile((PCRE2_SPTR)t.data(),t.size(),o,&err,&off,NULL);if(!cd){puts("pcre refuses");return 0;}auto*md=pcre2_match_data_create_from_pattern(cd,NULL);
 vector<string> q{""};int bad=0,n=0;for(size_t i=0;i<q.size();i++){string w=q[i];bool x=pcre2_match(cd,(PCRE2_SPTR)w.data(),w.size(),0,0,md,NULL)>=0,y=model_run(a,w,OUT_END).end;n++;if(x!=y&&bad++<6)printf("DIFF %s: lib %d pcre %d\n",esc(w).c_str(),y,x);if((int)w.size()<L)for(char c:al)q.push_back(w+c);}
 printf("%d strings %d differ\n",n,bad);if(getenv("V"))printf("%s\n",a.text().c_str());}
