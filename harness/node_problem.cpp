// The continuous problem handed to the NLP solver at a node (TMINLP2TNLP):
// bounds, start points, evaluations, clones, stored solutions.
#include "stubs.hpp"
#include "OsiBranchingObject.hpp"
using namespace Bonmin;
static const int N=2,M=3;
static StubMINLP* mk(){ StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); return t; }
static void symdata(StubMINLP*t){ fill(t->xl,"xl"); fill(t->xu,"xu"); fill(t->gl,"gl"); fill(t->gu,"gu"); fill(t->x0,"x0"); for(int i=0;i<N;i++){ int k=sc("vt",3,i); t->vt[i]=k==0?TMINLP::CONTINUOUS:k==1?TMINLP::BINARY:TMINLP::INTEGER; } }
static TMINLP2TNLP*copy_of(TMINLP2TNLP*p,const char*){ return p->clone(); }
static void check_bounds(TMINLP2TNLP&p,const DV&l,const DV&u,const DV&gl,const DV&gu,const char*w){
  double buf[2*N+2*M+4]; for(double&d:buf)d=777.25; double*a=buf+1,*b=a+N,*c=b+N,*d=c+M;
  bool ok=p.get_bounds_info(N,a,b,M,c,d); A(ok,w); A(buf[0]==777.25&&d[M]==777.25,w);
  for(int i=0;i<N;i++){ A(same(a[i],l[i]),w); A(same(b[i],u[i]),w); A(same(p.x_l()[i],l[i]),w); A(same(p.x_u()[i],u[i]),w);} for(int i=0;i<M;i++){A(same(c[i],gl[i]),w);A(same(d[i],gu[i]),w);} }
CASE(bounds){
  sym_snapshot(); StubMINLP*t=mk(); symdata(t); SmartPtr<TMINLP> h(t);
  TMINLP2TNLP p(h); 
  Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum s; A(p.get_nlp_info(n,m,nj,nh,s)&&n==N&&m==M&&nj==N*M&&nh==3&&s==t->style,"dimensions are those of the user problem");
  for(int i=0;i<N;i++)A(p.var_types()[i]==t->vt[i],"variable types are those of the user problem");
  check_bounds(p,t->xl,t->xu,t->gl,t->gu,"initial bounds are the user's");
  DV l=t->xl,u=t->xu; int steps=par("steps",2); TMINLP2TNLP*cl=0; DV cl_l,cl_u; bool other=false;
  for(int k=0;k<steps;k++){
    int op=sc("op",8,k); DV a(N),b(N); 
    if(op<3){ for(int i=0;i<N;i++){a[i]=sd("a",k,i);b[i]=sd("b",k,i);} }
    if(op==0){p.SetVariablesBounds(N,&a[0],&b[0]);l=a;u=b;}
    else if(op==1){p.SetVariablesLowerBounds(N,&a[0]);l=a;}
    else if(op==2){p.SetVariablesUpperBounds(N,&b[0]);u=b;}
    else if(op<6){ int v=sc("v",N,k); double x=sd("x",k),y=sd("y",k); if(op==3){p.SetVariableBounds(v,x,y);l[v]=x;u[v]=y;} else if(op==4){p.SetVariableLowerBound(v,x);l[v]=x;} else {p.SetVariableUpperBound(v,y);u[v]=y;} }
    else if(op==6){ if(!cl){cl=copy_of(&p,"how"); cl_l=l;cl_u=u;} }
    else { if(cl){ double x=sd("cx",k),y=sd("cy",k); cl->SetVariableBounds(k%N,x,y); cl_l[k%N]=x; cl_u[k%N]=y; } }
  }
  check_bounds(p,l,u,t->gl,t->gu,"bounds seen by the NLP solver are the ones last set");
  for(int i=0;i<N;i++){A(same(p.orig_x_l()[i],t->xl[i]),"original lower bounds are kept");A(same(p.orig_x_u()[i],t->xu[i]),"original upper bounds are kept");}
  if(cl){ check_bounds(*cl,cl_l,cl_u,t->gl,t->gu,"a clone has the bounds at cloning time and is independent"); for(int i=0;i<N;i++){A(cl->var_types()[i]==t->vt[i],"clone types");A(same(cl->orig_x_l()[i],t->xl[i]),"clone original lower bounds");A(same(cl->orig_x_u()[i],t->xu[i]),"clone original upper bounds");} Index n2,m2,j2,h2; Ipopt::TNLP::IndexStyleEnum s2; A(cl->get_nlp_info(n2,m2,j2,h2,s2)&&n2==N&&m2==M&&j2==N*M&&h2==3&&s2==t->style,"clone dimensions"); }
  sym_reach("bounds");
}
CASE(evals){
  sym_snapshot(); StubMINLP*t=mk(); fill(t->xl,"xl"); SmartPtr<TMINLP> h(t); t->style=sc("style",2)?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE;
  t->f=sd("f"); fill(t->gradf,"gf"); fill(t->g,"g"); fill(t->jac,"j"); fill(t->hess,"h"); 
  t->retf=sc("rf",2); t->retgf=sc("rgf",2); t->retg=sc("rg",2); t->retj=sc("rj",2); t->reth=sc("rh",2);
  TMINLP2TNLP p(h); DV x(N); fill(x,"x"); bool nx=sc("nx",2);
  double f=-99; A(p.eval_f(N,&x[0],nx,f)==t->retf,"eval_f status is the user's"); A(same(f,t->f),"objective value is the user's"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i])&&t->last_newx==(int)nx,"objective evaluated at the given point");
  double gb[N+2]={55.5,-99,-99,55.5}; A(p.eval_grad_f(N,&x[0],nx,gb+1)==t->retgf,"eval_grad_f status"); for(int i=0;i<N;i++){A(same(gb[1+i],t->gradf[i]),"gradient is the user's");A(same(t->lastx[i],x[i]),"gradient evaluated at the given point");} A(gb[0]==55.5&&gb[N+1]==55.5,"no write outside the gradient");
  double cb[M+2]={55.5,-99,-99,-99,55.5}; A(p.eval_g(N,&x[0],nx,M,cb+1)==t->retg,"eval_g status"); for(int i=0;i<M;i++)A(same(cb[1+i],t->g[i]),"constraint values are the user's"); A(cb[0]==55.5&&cb[M+1]==55.5,"no write outside the constraint values"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i]),"constraints evaluated at the given point");
  int nz=N*M; IV r(nz,-9),c(nz,-9); DV v(nz,-99.); A(p.eval_jac_g(N,NULL,nx,M,nz,&r[0],&c[0],NULL)==t->retj,"jac structure status"); int o=t->off(); for(int k=0;k<nz;k++)A(r[k]==t->jr[k]+o&&c[k]==t->jc[k]+o,"Jacobian structure is the user's");
  A(p.eval_jac_g(N,&x[0],nx,M,nz,NULL,NULL,&v[0])==t->retj,"jac status"); for(int k=0;k<nz;k++)A(same(v[k],t->jac[k]),"Jacobian values are the user's"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i]),"Jacobian evaluated at the given point");
  IV hr(3,-9),hc(3,-9); DV hv(3,-99.); double of=sd("of"); DV lam(M); fill(lam,"lam"); A(p.eval_h(N,NULL,nx,of,M,NULL,true,3,&hr[0],&hc[0],NULL)==t->reth,"hess structure status"); for(int k=0;k<3;k++)A(hr[k]==t->hr[k]+o&&hc[k]==t->hc[k]+o,"Hessian structure is the user's");
  A(p.eval_h(N,&x[0],nx,of,M,&lam[0],true,3,NULL,NULL,&hv[0])==t->reth,"hess status"); for(int k=0;k<3;k++)A(same(hv[k],t->hess[k]*of),"Hessian values are the user's"); A(same(t->last_of,of),"objective factor handed over"); for(int i=0;i<M;i++)A(same(t->last_lambda[i],lam[i]),"multipliers handed over"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i]),"Hessian evaluated at the given point");
  int gi=sc("gi",M); double gv=-99; A(p.eval_gi(N,&x[0],nx,gi,gv)==t->retg&&same(gv,t->g[gi]),"single constraint value is the user's");
  int ne=-1; int cc[N+1]={-9,-9,-9}; double vv[N+1]={-99,-99,-99}; p.eval_grad_gi(N,&x[0],nx,gi,ne,cc,NULL); A(ne==N,"gradient size"); p.eval_grad_gi(N,&x[0],nx,gi,ne,NULL,vv); for(int k=0;k<N;k++)A(cc[k]==k+o&&same(vv[k],t->jac[gi*N+k]),"single constraint gradient is the user's");
  sym_reach("evals");
}
CASE(start){
  sym_snapshot(); StubMINLP*t=mk(); fill(t->x0,"x0"); SmartPtr<TMINLP> h(t); TMINLP2TNLP*p=new TMINLP2TNLP(h);
  DV x=t->x0; bool hasx=false,hasd=false; DV du(2*N+M,0.); int steps=par("steps",3); bool xknown=true; int ncl=0;
  for(int k=0;k<steps;k++){ int op=sc("op",4,k);
    if(op==0){ DV a(N); for(int i=0;i<N;i++)a[i]=sd("a",k,i); p->setxInit(N,&a[0]); x=a; hasx=true; }
    else if(op==1){ DV a(2*N+M); for(size_t i=0;i<a.size();i++)a[i]=sd("d",k,(int)i); bool had=hasx; p->setDualsInit(2*N+M,&a[0]); du=a; hasd=true; if(!had){ x.assign(N,0.); xknown=false; } hasx=true; }
    else if(op==2){ p->resetStartingPoint(); x=t->x0; hasx=hasd=false; xknown=true; }
    else if(ncl++==0){ TMINLP2TNLP*q=copy_of(p,"how"); delete p; p=q; }
    if(hasx&&op==0)xknown=true;
  }
  double b[1+N+N+N+M+1]; for(double&d:b)d=777.25; double*px=b+1,*zl=px+N,*zu=zl+N,*la=zu+N;
  A(p->has_x_init()==(hasx?(hasd?2:1):0),"which parts of the start point are available");
  bool duals=sc("duals",2); bool ok=p->get_starting_point(N,true,px,duals,zl,zu,M,duals,la); A(ok==(!duals||hasd),"a start point is available exactly when it was given");
  if(xknown)for(int i=0;i<N;i++)A(same(px[i],x[i]),"primal start point is the one last set, or the user's");
  if(duals&&ok){ for(int i=0;i<N;i++){A(same(zl[i],du[i]),"bound multipliers of the start point (lower)");A(same(zu[i],du[N+i]),"bound multipliers of the start point (upper)");} for(int i=0;i<M;i++)A(same(la[i],du[2*N+i]),"constraint multipliers of the start point"); }
  A(b[0]==777.25&&b[1+N+N+N+M]==777.25,"no write outside the start point"); if(!duals)A(zl[0]==777.25&&la[0]==777.25,"parts not asked for stay untouched");
  sym_reach("start");
}
CASE(finalize){
  sym_snapshot(); StubMINLP*t=mk(); SmartPtr<TMINLP> h(t); TMINLP2TNLP*p=new TMINLP2TNLP(h); 
  int rounds=par("rounds",1); DV x(N),zl(N),zu(N),g(M),la(M); double o=0; int st=0; bool dl=true; DV d(2*N+M,0.);
  for(int k=0;k<rounds;k++){ for(int i=0;i<N;i++){x[i]=sd("x",k,i);zl[i]=sd("zl",k,i);zu[i]=sd("zu",k,i);} for(int i=0;i<M;i++){g[i]=sd("g",k,i);la[i]=sd("la",k,i);} o=sd("o",k); st=sc("st",Ipopt::INTERNAL_ERROR+1,k);
    p->finalize_solution((Ipopt::SolverReturn)st,N,&x[0],&zl[0],&zu[0],M,&g[0],&la[0],o,NULL,NULL); }
  if(sc("clone",2)){ TMINLP2TNLP*q=copy_of(p,"how"); delete p; p=q; }
  A(p->optimization_status()==(Ipopt::SolverReturn)st,"status stored is the solver's"); A(same(p->obj_value(),o),"objective stored is the solver's");
  for(int i=0;i<N;i++){A(same(p->x_sol()[i],x[i]),"primal solution stored is the solver's");A(same(p->duals_sol()[i],zl[i])&&same(p->duals_sol()[N+i],zu[i]),"bound multipliers stored are the solver's");} for(int i=0;i<M;i++){A(same(p->g_sol()[i],g[i]),"constraint values stored are the solver's");A(same(p->duals_sol()[2*N+i],la[i]),"multipliers stored are the solver's");}
  sym_reach("finalize");
}
CASE(check_solution){
  sym_snapshot(); sym_grid(6); StubMINLP*t=mk(); SmartPtr<TMINLP> h(t); fill(t->gl,"gl",-4,4); fill(t->gu,"gu",-4,4); for(int i=0;i<M;i++)sym_assume(t->gl[i]<=t->gu[i]); for(int i=0;i<N;i++){ int k=sc("vt",3,i); t->vt[i]=k==0?TMINLP::CONTINUOUS:k==1?TMINLP::BINARY:TMINLP::INTEGER; }
  fill(t->g,"g",-4,4); t->f=sd("f"); TMINLP2TNLP p(h); DV x(N); fill(x,"x",-3,3); DV z(N,0.),l(M,0.); DV g0(M,0.); p.finalize_solution(Ipopt::SUCCESS,N,&x[0],&z[0],&z[0],M,&g0[0],&l[0],1e10,NULL,NULL);
  double e=p.check_solution(); double want=0; for(int i=0;i<M;i++){ want=std::max(want,t->gl[i]-t->g[i]); want=std::max(want,t->g[i]-t->gu[i]); }
  for(int i=0;i<N;i++){ double s=p.x_sol()[i]; if(t->vt[i]==TMINLP::CONTINUOUS)A(same(s,x[i]),"continuous values are kept"); else { A(sym_and(s-x[i]<=0.5,x[i]-s<=0.5),"integer values are rounded to the nearest integer"); A(s==std::floor(s),"integer values are integral"); } A(same(t->lastx[i],s),"the rounded point is the one evaluated"); }
  A(same(e,want),"largest violation is reported"); A(same(p.obj_value(),t->f),"objective is re-evaluated"); sym_reach("check_solution");
}
