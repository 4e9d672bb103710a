// Linearisations: outer-approximation cuts, linear relaxation, Benders cuts.
#include "ifstubs.hpp"
#include "lpstub.hpp"
using namespace Bonmin;
static IF F; static int N=2,M=2; static void dims(){ N=par("n",2); M=par("m",2); }
static const double INF=1.7976931348623157e308;
static void draw(int k,Answer&a,StubSolver&){ a.st=TNLPSolver::solvedOptimal; double W=par("wide",0)?1e6:8; for(size_t i=0;i<a.x.size();i++)a.x[i]=sd("sx",k,(int)i,-W,W); for(size_t i=0;i<a.lam.size();i++){ static const double L[]={0,1,-1,0.5,-2,1e-7,-1e-7}; a.lam[i]=par("cdual",0)?L[sc("csl",par("cdual",0),(int)i)]:sd("sl",k,(int)i); } a.obj=sd("obj",k); }
// kinds of row: 0 <=, 1 >=, 2 ranged/equality, 3 free
static IV kind;
static double coef(const char*b,int i){ // ordinary, tiny or negligible coefficients
  int k=par("tiny",0)?sc("ck",3,i):0; double v=sd(b,i); if(par("big",0))sym_assume(sym_or(v>=0.0625,v<=-0.0625)); return k==0?v:k==1?v*std::ldexp(1.,-32):v*std::ldexp(1.,-90); }
static StubMINLP* mk(){ dims(); StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->linobj=par("linobj",0);
  if(par("fortran",0))t->style=Ipopt::TNLP::FORTRAN_STYLE;
  kind.resize(M);
  for(int i=0;i<M;i++){ kind[i]=sc("kind",par("kinds",3),i); t->clin[i]=par("lin",0)&&sc("lin",2,i)?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR; t->gl[i]=(kind[i]==0||kind[i]==3)?-1e300:sd("gl",i); t->gu[i]=(kind[i]==1||kind[i]==3)?1e300:sd("gu",i); if(kind[i]==2)sym_assume(t->gl[i]<=t->gu[i]); }
  for(int i=0;i<N;i++){ int b=par("inf",0)?sc("cb",4,i):0; double W=par("wide",0)?1e6:8; t->xl[i]=(b&1)?-1e300:sd("xl",i,-1,-W,W); t->xu[i]=(b&2)?1e300:sd("xu",i,-1,-W,W); sym_assume(t->xl[i]<=t->xu[i]); if(par("vt",0))t->vt[i]=sc("vt",2,i)?TMINLP::INTEGER:TMINLP::CONTINUOUS; }
  for(size_t k=0;k<t->jac.size();k++)t->jac[k]=coef("J",(int)k); fill(t->g,"g"); fill(t->gradf,"df"); t->f=sd("f");
  return t; }
// a point inside the bounds which satisfies every linearised constraint (as any feasible point of a convex problem does)
static DV point(StubMINLP*t,const DV&x,DV&lin){ DV y(N); lin.assign(M,0); for(int j=0;j<N;j++){ { double W=par("wide",0)?1e6:8; y[j]=sd("y",j,-1,-W,W); } sym_assume(y[j]>=t->xl[j]); sym_assume(y[j]<=t->xu[j]); }
  for(int i=0;i<M;i++){ double s=t->g[i]; for(int j=0;j<N;j++)s+=t->jac[i*N+j]*(y[j]-x[j]); lin[i]=s; } return y; }
#define TOL (par("wide",0)?1e-5:1e-9)
// which side of a two-sided row the multiplier selects
static bool useLow(StubMINLP*t,int i,const double*d){ return t->gl[i]>-1e100&&!(t->gu[i]<1e100&&d[i]>=0); }
static bool useUp(StubMINLP*t,int i,const double*d){ return t->gu[i]<1e100&&!(t->gl[i]>-1e100&&d[i]<=0); }
static void checkrow(StubMINLP*t,int i,double lhs,double lb,double ub,const DV&lin,double slack,bool low,bool up){
  // valid: whatever satisfies the linearised constraint satisfies the row
  if(up){ A(sym_implies(lin[i]<=t->gu[i],lhs<=ub+TOL),"cut keeps every point of the linearised <= constraint"); A(sym_implies(lhs<=ub,lin[i]<=t->gu[i]+slack),"cut enforces the linearised <= constraint"); } else A(ub>=1e100,"no cut on the side not selected");
  if(low){ A(sym_implies(lin[i]>=t->gl[i],lhs>=lb-TOL),"cut keeps every point of the linearised >= constraint"); A(sym_implies(lhs>=lb,lin[i]>=t->gl[i]-slack),"cut enforces the linearised >= constraint"); } else A(lb<=-1e100,"no cut on the side not selected (lower)");
}
CASE(oa){
  F.prepare(); F.sh.answer=draw; sym_snapshot(); StubMINLP*t=mk(); F.make(t); F.si->initialSolve(); DV x(F.si->getColSolution(),F.si->getColSolution()+N); const double*d=F.si->getRowPrice()+2*N; DV dd(d,d+M);
  int obj=sc("getobj",3); OsiCuts cs; bool glob=sc("glob",2); int calls=par("calls",1); for(int k=0;k<calls;k++){ cs=OsiCuts(); F.si->getOuterApproximation(cs,obj,NULL,glob); }
  int nc=0; for(int i=0;i<M;i++)if(t->clin[i]==Ipopt::TNLP::NON_LINEAR)nc++; bool ob=obj==2||(obj==1&&!t->linobj);
  A(cs.sizeRowCuts()==nc+(ob?1:0),"one cut per nonlinear constraint, and one for the objective when asked for");
  DV lin; DV y=point(t,x,lin); int c=0; double slack=par("wide",0)?1e6:par("tiny",0)?1e-3:1e-5;
  for(int i=0;i<M;i++)if(t->clin[i]==Ipopt::TNLP::NON_LINEAR){ OsiRowCut*k=cs.rowCutPtr(c++); for(int e=0;e<k->row().getNumElements();e++)A(k->row().getIndices()[e]>=0&&k->row().getIndices()[e]<N,"cut indices are columns"); checkrow(t,i,cutlhs(*k,&y[0]),k->lb(),k->ub(),lin,slack,useLow(t,i,&dd[0]),useUp(t,i,&dd[0])); A((k->globallyValidAsInteger()==1)==glob,"global validity flag is the caller's"); }
  if(ob){ OsiRowCut*k=cs.rowCutPtr(c++); y.push_back(sd("alpha",-1,-1,-100,100)); double s=t->f; for(int j=0;j<N;j++)s+=t->gradf[j]*(y[j]-x[j]); A(k->lb()<=-1e100,"objective cut has no lower side"); double l=cutlhs(*k,&y[0]); A(sym_implies(s<=y[N],l<=k->ub()+TOL),"objective cut keeps every point above the linearised objective"); A(sym_implies(l<=k->ub(),s<=y[N]+slack),"objective cut enforces the linearised objective"); }
  for(int j=0;j<N;j++)A(same(t->lastx[j],x[j]),"functions are evaluated at the given point"); sym_reach("oa");
}
CASE(oa_single){
  F.prepare(); F.sh.answer=draw; sym_snapshot(); StubMINLP*t=mk(); F.make(t); F.si->initialSolve(); DV x(F.si->getColSolution(),F.si->getColSolution()+N); const double*d=F.si->getRowPrice()+2*N; DV dd(d,d+M);
  int i=sc("row",M); OsiCuts cs; F.si->getConstraintOuterApproximation(cs,i,NULL,true); A(cs.sizeRowCuts()==1,"one cut"); OsiRowCut*k=cs.rowCutPtr(0); DV lin; DV y=point(t,x,lin); for(int e=0;e<k->row().getNumElements();e++)A(k->row().getIndices()[e]>=0&&k->row().getIndices()[e]<N,"cut indices are columns"); checkrow(t,i,cutlhs(*k,&y[0]),k->lb(),k->ub(),lin,1e-5,useLow(t,i,&dd[0]),useUp(t,i,&dd[0])); sym_reach("oa_single");
}
CASE(relax){
  F.prepare(); F.sh.answer=draw; sym_snapshot(); StubMINLP*t=mk(); F.make(t); bool slv=true; StubLP lp; bool go=sc("getobj",2); F.si->extractLinearRelaxation(lp,go,slv);
  DV x(F.sh.calls.back().sx); DV dd(F.sh.calls.back().sl); DV lin; DV y=point(t,x,lin);
  bool addvar=go&&!t->linobj; A(lp.n==N+(addvar?1:0),"columns are the problem's, plus one for a nonlinear objective");
  for(int j=0;j<N;j++){ A(t->xl[j]<-1e100?lp.cl[j]<-1e100:same(lp.cl[j],t->xl[j]),"column lower bounds"); A(t->xu[j]>1e100?lp.cu[j]>1e100:same(lp.cu[j],t->xu[j]),"column upper bounds"); A(lp.isint[j]==(t->vt[j]!=TMINLP::CONTINUOUS),"integrality is carried over"); }
  // rows: matched in order; a two-sided nonlinear row with a zero multiplier is left out
  double al=sd("alpha",-1,-1,-100,100); DV ya=y; if(addvar)ya.push_back(al); int r=0; double slack=par("wide",0)?1e6:1e-5;
  for(int i=0;i<M;i++){ bool nl=t->clin[i]!=Ipopt::TNLP::LINEAR; bool two=t->gl[i]>-1e100&&t->gu[i]<1e100; if(nl&&two&&dd[i]==0.)continue; A(r<lp.m,"every constraint has its row"); if(r>=lp.m)return; double l=lp.lhs(r,ya);
    if(nl)checkrow(t,i,l,lp.rl[r],lp.ru[r],lin,slack,useLow(t,i,&dd[0]),useUp(t,i,&dd[0]));
    else { double s=0; for(int j=0;j<N;j++)s+=t->jac[i*N+j]*y[j]; A(same(l,s),"linear rows are copied"); if(t->gu[i]<1e100)A(sym_and(lp.ru[r]>=t->gu[i],lp.ru[r]<=t->gu[i]+slack),"linear row upper side"); else A(lp.ru[r]>1e100,"free side"); if(t->gl[i]>-1e100)A(sym_and(lp.rl[r]<=t->gl[i],lp.rl[r]>=t->gl[i]-slack),"linear row lower side"); else A(lp.rl[r]<-1e100,"free side"); }
    r++; }
  if(addvar){ A(r<lp.m,"objective row present"); if(r>=lp.m)return; double s=t->f; for(int j=0;j<N;j++)s+=t->gradf[j]*(y[j]-x[j]); double l=lp.lhs(r,ya); A(lp.rl[r]<=-1e100,"objective row has no lower side"); A(sym_implies(s<=al,l<=lp.ru[r]+TOL),"objective row keeps every point above the linearised objective"); if(r>0)A(sym_implies(l<=lp.ru[r],s<=al+slack),"objective row enforces the linearised objective"); for(int j=0;j<=N;j++)A(same(lp.ob[j],j==N?1.:0.),"the relaxation minimises the objective variable"); A(lp.cl[N]<-1e100&&lp.cu[N]>1e100,"objective variable is free"); r++; }
  else if(go){ for(int j=0;j<N;j++)A(same(lp.ob[j],t->gradf[j]),"linear objective is copied"); A(same(lp.offset,-t->f),"constant of the linear objective is kept"); }
  A(lp.m==r,"no other rows"); sym_reach("relax");
}
CASE(benders){
  F.prepare(); F.sh.answer=draw; sym_snapshot(); StubMINLP*t=mk(); F.make(t); F.si->initialSolve(); { OsiCuts c0; F.si->getOuterApproximation(c0,0,NULL,false); } DV x(F.si->getColSolution(),F.si->getColSolution()+N); const double*d=F.si->getRowPrice()+2*N; DV dd(d,d+M);
  // multipliers of an optimal solution: sign given by the bounded side
  for(int i=0;i<M;i++){ if(kind[i]==0)sym_assume(dd[i]>=0); if(kind[i]==1)sym_assume(dd[i]<=0); if(kind[i]==3)sym_assume(dd[i]==0); }
  OsiCuts cs; F.si->getBendersCut(cs,true); A(cs.sizeRowCuts()==1,"one Benders cut"); OsiRowCut*k=cs.rowCutPtr(0); DV lin; DV y=point(t,x,lin); y.push_back(sd("alpha",-1,-1,-1000,1000));
  double s=0; if(!t->linobj){ s=t->f-y[N]; for(int j=0;j<N;j++)s+=t->gradf[j]*(y[j]-x[j]); sym_assume(s<=0); }
  for(int i=0;i<M;i++)if(t->clin[i]!=Ipopt::TNLP::LINEAR){ if(dd[i]>1e-6){ s+=dd[i]*(lin[i]-t->gu[i]); sym_assume(dd[i]*(lin[i]-t->gu[i])<=0); } else if(dd[i]<-1e-6){ s+=dd[i]*(lin[i]-t->gl[i]); sym_assume(dd[i]*(lin[i]-t->gl[i])<=0); } }
  A(k->lb()<=-1e100,"no lower side"); double l=cutlhs(*k,&y[0]); A(l<=k->ub()+1e-6,"Benders cut keeps every feasible point"); A(sym_implies(l<=k->ub(),s<=1e-4),"Benders cut is the aggregated linearisation"); sym_reach("benders");
}
