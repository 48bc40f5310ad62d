// vsql: run SQL statements (one per line on stdin or arguments) and print outcomes
#include "shim.h"
#include "vf.h"
#include <cstdio>
#include <string>
#include <iostream>
static void pc(const vcell&c){ if(c.null)printf("NULL"); else if(c.type==VT_VARCHAR)printf("'%.*s'",c.slen,c.s?c.s:"(nil)"); else if(c.type==VT_DOUBLE)printf("%.17g",c.d); else printf("%ld",(long)c.i);}
static void run(vdb*db,const std::string&s){
  if(s.empty()||s[0]=='#')return;
  if(s[0]=='.'){ std::string q=s; if(q.back()==';')q.pop_back(); const std::string&s=q; void*t=vdb_table(db,s.c_str()+1); if(!t){printf("no table\n");return;} vit it={0,0,0}; for(int i=0;i<vt_ncols(t);i++){vcol k;vt_col(t,i,&k);printf("%s(t%d p%d ix%d nl%d uq%d ai%d pk%d) ",k.name,k.type,k.precision,k.indexed,k.nullable,k.unique,k.auto_inc,k.primary_key);} printf("\n");
    while(vt_next(t,&it)){ for(int i=0;i<vt_ncols(t);i++){vcell c;vt_cell(t,&it,i,&c);printf(" ");pc(c);} printf("\n");} return;}
  printf("> %s\n",s.c_str()); fflush(stdout);
  int64_t l0=vf_live; vres r; vdb_exec(db,s.c_str(),&r);
  printf("  status=%d naff=%zu msg=%s\n",r.status,r.naff,r.msg);
  if(r.status==VS_ROWS){ for(int i=0;i<vt_ncols(r.table);i++){vcol k;vt_col(r.table,i,&k);printf("  [%s t%d]",k.name,k.type);} printf("\n"); vit it; int n=0; while(vres_step(&r,&it)==1&&n++<1000){ printf("   "); for(int i=0;i<vt_ncols(r.table);i++){vcell c;vt_cell(r.table,&it,i,&c);printf(" ");pc(c);} printf("\n"); } }
  vres_free(&r);
  if(vf_live!=l0)printf("  live %+ld\n",(long)(vf_live-l0));
  fflush(stdout);
}
int main(int n,char**v){ vdb*db=vdb_open(); if(n>1)for(int i=1;i<n;i++)run(db,v[i]); else {std::string l; while(std::getline(std::cin,l))run(db,l);} vdb_close(db); printf("end live=%ld re=%ld locks=%ld\n",(long)vf_live,(long)vf_live_re,(long)vf_locks_held);}
