// The feasibility-pump / local-branching problem (TNLP2FPNLP), built directly
// and through the interface's feasibility-problem entry points.
#include "ifstubs.hpp"
#include "BonTNLP2FPNLP.hpp"
using namespace Bonmin;
static int N=3,M=2;
struct Spec{ bool fp,cut,lb; int norm; double lam,sig,scale,cutoff,rhs; IV inds; DV vals; };
static const double TOL=1e-6;
#define EQ(a,b,w) A(sym_near((a),(b),TOL),w)
static StubMINLP* mk(){ N=par("n",3); M=par("m",2); StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); return t; }
static void data(StubMINLP*t){ t->style=sc("style",2)?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE; t->f=sd("f"); fill(t->gradf,"df"); fill(t->g,"g"); fill(t->jac,"J"); fill(t->hess,"h"); fill(t->xl,"xl"); fill(t->xu,"xu"); fill(t->gl,"gl"); fill(t->gu,"gu"); fill(t->x0,"x0"); for(int i=0;i<M;i++)t->clin[i]=(par("lin",1)?sc("lin",2,i):i%2)?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR; }
static void pick(Spec&s){ int k=sc("subset",par("subsets",4)); if(k==1)s.inds={1}; if(k==2)s.inds={2,0}; if(k==3){s.inds.clear();for(int i=0;i<N;i++)s.inds.push_back(i);} s.vals.resize(s.inds.size());
  for(size_t i=0;i<s.vals.size();i++){ if(s.norm==2&&!s.lb) s.vals[i]=sd("v",(int)i); else s.vals[i]=sc("v01",2,(int)i); } }
static double dist(const Spec&s,const double*x,int norm){ double d=0; for(size_t k=0;k<s.inds.size();k++){ double y=x[s.inds[k]]; if(norm==2)d+=(y-s.vals[k])*(y-s.vals[k]); else d+=s.vals[k]<0.5?y:1-y; } return d; }
static void check(Ipopt::TNLP&p,StubMINLP*t,const Spec&s){
  int ns=(int)s.inds.size(),o=t->off(); Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; A(p.get_nlp_info(n,m,nj,nh,st),"problem information available");
  int ex=(s.cut?1:0)+(s.lb?1:0),rc=M,rl=M+(s.cut?1:0); A(n==N&&m==M+ex&&st==t->style,"size of the problem"); if(n!=N||m!=M+ex)return;
  A(nj==N*M+(s.cut?N:0)+(s.lb?ns:0),"size of the Jacobian"); A(nh==N*(N+1)/2+((s.fp&&s.norm==2)?ns:0),"size of the Hessian");
  static int cc=0; int C_=cc++; DV x(N); for(int i=0;i<N;i++)x[i]=sd("xe",C_,i); const double G=777.25;
  { DV l(N+1,G),u(N+1,G),a(m+1,G),b(m+1,G); A(p.get_bounds_info(N,&l[0],&u[0],m,&a[0],&b[0]),"bounds"); for(int i=0;i<N;i++)A(same(l[i],t->xl[i])&&same(u[i],t->xu[i]),"variable bounds are the problem's"); for(int i=0;i<M;i++)A(same(a[i],t->gl[i])&&same(b[i],t->gu[i]),"constraint bounds are the problem's");
    if(s.cut){ A(a[rc]<=-1e100,"the cutoff row has no lower bound"); if(s.cutoff>0.01)A(b[rc]<s.cutoff&&b[rc]>=s.cutoff*(1-1e-3),"the cutoff row asks for a strictly better objective"); else if(s.cutoff<-0.01)A(b[rc]<s.cutoff&&b[rc]>=s.cutoff*(1+1e-3),"the cutoff row asks for a strictly better objective (negative)"); else A(b[rc]<s.cutoff&&b[rc]>=s.cutoff-1e-3,"the cutoff row asks for a strictly better objective (near zero)"); }
    if(s.lb)A(a[rl]<=-1e100&&same(b[rl],s.rhs),"the local branching row is limited by its right-hand side");
    A(l[N]==G&&u[N]==G&&a[m]==G&&b[m]==G,"bounds stay inside the arrays"); }
  double w=s.fp?(1-s.lam)*s.sig:1;
  { double v=G; A(p.eval_f(N,&x[0],true,v),"objective"); double e=w*t->f+(s.fp?s.scale*s.lam*dist(s,&x[0],s.norm):0); EQ(v,e,"objective is the weighted sum of the user's and the distance"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i]),"the user's function is evaluated at the point"); }
  { DV d(N+1,G); A(p.eval_grad_f(N,&x[0],true,&d[0]),"gradient"); for(int i=0;i<N;i++){ double e=w*t->gradf[i]; if(s.fp)for(int k=0;k<ns;k++)if(s.inds[k]==i)e+=s.norm==2?2*s.scale*s.lam*(x[i]-s.vals[k]):(s.vals[k]<0.5?1:-1)*s.scale*s.lam; EQ(d[i],e,"gradient is that of the objective"); } A(d[N]==G,"gradient stays inside the array"); }
  { DV g(m+1,G); A(p.eval_g(N,&x[0],true,m,&g[0]),"constraints"); for(int i=0;i<M;i++)A(same(g[i],t->g[i]),"constraint values are the user's"); if(s.cut)EQ(g[rc],t->f,"the cutoff row is the user's objective"); if(s.lb)EQ(g[rl],dist(s,&x[0],1),"the local branching row is the distance to the point"); A(g[m]==G,"constraints stay inside the array"); }
  { IV r(nj+1,-99),c(nj+1,-99); DV v(nj+1,G); t->last_m=-1; A(p.eval_jac_g(N,NULL,false,m,nj,&r[0],&c[0],NULL),"Jacobian structure"); A(t->last_m==M,"the user sees his own number of constraints (structure)"); t->last_m=-1; A(p.eval_jac_g(N,&x[0],true,m,nj,NULL,NULL,&v[0]),"Jacobian values"); A(t->last_m==M,"the user sees his own number of constraints"); A(r[nj]==-99&&c[nj]==-99&&v[nj]==G,"Jacobian stays inside the arrays");
    std::vector<DV> J(m,DV(N,0)); std::vector<IV> seen(m,IV(N,0)); for(int k=0;k<nj;k++){ int i=r[k]-o,j=c[k]-o; bool ok=i>=0&&i<m&&j>=0&&j<N; A(ok,"Jacobian indices in range"); if(!ok)return; A(!seen[i][j],"no duplicate Jacobian entry"); seen[i][j]=1; J[i][j]+=v[k]; }
    for(int i=0;i<M;i++)for(int j=0;j<N;j++)A(same(J[i][j],t->jac[i*N+j]),"Jacobian of the user's constraints");
    if(s.cut)for(int j=0;j<N;j++)EQ(J[rc][j],t->gradf[j],"the gradient of the cutoff row is the user's objective gradient");
    if(s.lb)for(int j=0;j<N;j++){ double e=0; for(int k=0;k<ns;k++)if(s.inds[k]==j)e=s.vals[k]<0.5?1:-1; A(J[rl][j]==e,"gradient of the local branching row"); } }
  { IV r(nh+1,-99),c(nh+1,-99); DV v(nh+1,G),lam(m+1); for(int i=0;i<m;i++)lam[i]=sd("lam",C_,i); double of=sd("of",C_); t->last_m=-1; A(p.eval_h(N,NULL,false,0,m,NULL,false,nh,&r[0],&c[0],NULL),"Hessian structure"); A(p.eval_h(N,&x[0],true,of,m,&lam[0],true,nh,NULL,NULL,&v[0]),"Hessian values"); A(t->last_m==M,"the user sees his own number of constraints (Hessian)"); A(r[nh]==-99&&c[nh]==-99&&v[nh]==G,"Hessian stays inside the arrays");
    for(int i=0;i<M;i++)A(same(t->last_lambda[i],lam[i]),"multipliers of the user's constraints"); double e=of*w+(s.cut?lam[rc]:0.); EQ(t->last_of,e,"weight of the user's objective in the Hessian");
    std::vector<DV> H(N,DV(N,0)); for(int k=0;k<nh;k++){ int i=r[k]-o,j=c[k]-o; bool ok=i>=0&&i<N&&j>=0&&j<N; A(ok,"Hessian indices in range"); if(!ok)return; H[std::max(i,j)][std::min(i,j)]+=v[k]; }
    for(int i=0,k=0;i<N;i++)for(int j=0;j<=i;j++,k++){ double q=t->hess[k]*t->last_of; if(i==j&&s.fp&&s.norm==2)for(int a=0;a<ns;a++)if(s.inds[a]==i)q+=2*s.scale*s.lam*of; EQ(H[i][j],q,"Hessian is the user's plus that of the distance"); } }
  { std::vector<Ipopt::TNLP::LinearityType> l(m+1,Ipopt::TNLP::LINEAR); A(p.get_constraints_linearity(m,&l[0]),"linearity"); for(int i=0;i<M;i++)A(l[i]==t->clin[i],"linearity of the user's constraints"); if(s.cut)A(l[rc]==Ipopt::TNLP::NON_LINEAR,"the cutoff row is nonlinear"); if(s.lb)A(l[rl]==Ipopt::TNLP::LINEAR,"the local branching row is linear"); }
}
static Spec draw_spec(){ Spec s; int k=sc("rows",4); s.cut=k&1; s.lb=k&2; s.fp=sc("fp",2); s.norm=1+sc("norm",2); s.lam=sdr("lambda",0,1); s.sig=sdr("sigma",0,8); s.scale=sdr("scale",0,100); s.cutoff=s.cut?sdr("cutoff",-100,100):0; s.rhs=sdr("rhs",0,8); pick(s); return s; }
static void apply(TNLP2FPNLP&p,const Spec&s){ p.set_use_feasibility_pump_objective(s.fp); p.set_use_cutoff_constraint(s.cut); p.set_use_local_branching_constraint(s.lb); p.set_cutoff(s.cutoff); p.set_rhs_local_branching_constraint(s.rhs); p.setLambda(s.lam); p.setSigma(s.sig); p.setNorm(s.norm); p.setObjectiveScaling(s.scale); double z=0;int zi=0; p.set_dist_to_point_obj(s.inds.size(),s.vals.empty()?&z:&s.vals[0],s.inds.empty()?&zi:&s.inds[0]); }
CASE(direct){
  sym_snapshot(); StubMINLP*t=mk(); data(t); SmartPtr<TMINLP> h(t); SmartPtr<TMINLP2TNLP> in=new TMINLP2TNLP(h); Spec s=draw_spec();
  SmartPtr<TNLP2FPNLP> p=new TNLP2FPNLP(SmartPtr<Ipopt::TNLP>(Ipopt::GetRawPtr(in))); apply(*p,s);
  if(sc("copy",2)){ SmartPtr<TMINLP2TNLP> in2=in->clone(); p=new TNLP2FPNLP(SmartPtr<Ipopt::TNLP>(Ipopt::GetRawPtr(in2)),p); }
  check(*p,t,s); sym_reach("direct");
}
// what goes in and out around a solve: start point, multipliers, solution
CASE(solution){
  sym_snapshot(); StubMINLP*t=mk(); data(t); SmartPtr<TMINLP> h(t); SmartPtr<TMINLP2TNLP> in=new TMINLP2TNLP(h); Spec s=draw_spec();
  SmartPtr<TNLP2FPNLP> p=new TNLP2FPNLP(SmartPtr<Ipopt::TNLP>(Ipopt::GetRawPtr(in))); apply(*p,s); int m=M+(s.cut?1:0)+(s.lb?1:0); const double G=777.25;
  DV di(2*N+M); fill(di,"di"); in->setDualsInit(2*N+M,&di[0]); DV xi(N); fill(xi,"xi"); in->setxInit(N,&xi[0]);
  DV x(N+1,G),zl(N+1,G),zu(N+1,G),la(m+1,G); A(p->get_starting_point(N,true,&x[0],true,&zl[0],&zu[0],m,true,&la[0]),"start point"); for(int i=0;i<N;i++)A(same(x[i],xi[i])&&same(zl[i],di[i])&&same(zu[i],di[N+i]),"start point and bound multipliers are the problem's"); for(int i=0;i<M;i++)A(same(la[i],di[2*N+i]),"multipliers of the user's constraints are the problem's"); for(int i=M;i<m;i++)A(la[i]==0,"multipliers of added rows start at zero"); A(x[N]==G&&zl[N]==G&&zu[N]==G&&la[m]==G,"start point stays inside the arrays");
  DV sx(N),a(N),b(N),g(m+1),sl(m+1); fill(sx,"sx"); fill(a,"sa"); fill(b,"sb"); fill(g,"sg"); fill(sl,"sl"); double ob=sd("ob"); p->finalize_solution(Ipopt::SUCCESS,N,&sx[0],&a[0],&b[0],m,&g[0],&sl[0],ob,NULL,NULL);
  for(int i=0;i<N;i++)A(same(in->x_sol()[i],sx[i])&&same(in->duals_sol()[i],a[i])&&same(in->duals_sol()[N+i],b[i]),"the solution is stored in the node problem"); for(int i=0;i<M;i++)A(same(in->g_sol()[i],g[i])&&same(in->duals_sol()[2*N+i],sl[i]),"constraint values and multipliers are stored in the node problem"); A(same(in->obj_value(),ob),"the objective is stored"); sym_reach("solution");
}
// through the interface
static IF F; static Spec cur; static int mode;
static void ans(int k,Answer&a,StubSolver&s){ check(*s.lastp,F.t,cur); a.st=TNLPSolver::solvedOptimal; for(size_t i=0;i<a.x.size();i++)a.x[i]=sd("ax",k,(int)i); a.obj=sd("aobj",k); }
CASE(iface){
  F.prepare(); F.sh.answer=ans; sym_snapshot(); StubMINLP*t=mk(); data(t); F.make(t);
  Spec s; s.norm=1+sc("norm",2); s.lam=sdr("lambda",0,1); s.sig=sdr("sigma",0,8); s.scale=100; s.cutoff=sdr("cutoff",-100,100); s.rhs=sdr("rhs",0,8); s.cut=s.lb=s.fp=false; mode=sc("mode",5); s.lb=mode==3; pick(s); double z=0;int zi=0; const double*v=s.vals.empty()?&z:&s.vals[0]; const int*ii=s.inds.empty()?&zi:&s.inds[0]; size_t n=s.inds.size();
  int prev=sc("prev",3); cur=s; if(prev==1){ F.si->switchToFeasibilityProblem(n,v,ii,s.rhs); } else if(prev==2) { F.si->switchToFeasibilityProblem(n,v,ii,s.lam,s.sig,s.norm); }
  if(prev)F.si->switchToOriginalProblem();
  OsiTMINLPInterface*si=F.si; if(sc("copy",2)){ si=(OsiTMINLPInterface*)F.si->clone(); }
  double r=0; bool direct=false;
  if(mode==0){ cur.fp=true; direct=true; r=si->solveFeasibilityProblem(n,v,ii,s.lam,s.sig,s.norm); }
  else if(mode==1){ cur.fp=true; cur.cut=true; cur.lam=1; cur.sig=0; direct=true; r=si->solveFeasibilityProblem(n,v,ii,s.norm,s.cutoff); }
  else if(mode==2){ cur.fp=true; si->switchToFeasibilityProblem(n,v,ii,s.lam,s.sig,s.norm); si->initialSolve(); }
  else if(mode==3){ cur.lb=true; si->switchToFeasibilityProblem(n,v,ii,s.rhs); si->initialSolve(); }
  else { cur.fp=cur.lb=cur.cut=false; si->initialSolve(); }
  A(F.sh.calls.size()==1,"one solve"); if(F.sh.calls.size()<1)return; SolveRec&c=F.sh.calls[0]; if(direct)A(same(r,c.obj),"the value returned is the objective of the solve"); A(si->isProvenOptimal(),"the outcome is reported"); for(int i=0;i<N;i++)A(same(si->getColSolution()[i],c.sx[i]),"the point is reported");
  si->switchToOriginalProblem(); cur.fp=cur.lb=cur.cut=false; if(sc("again",2)){ si->resolve(); A(F.sh.calls.size()==2,"the original problem is solved afterwards"); A(same(si->getObjValue(),F.sh.calls.back().obj),"its objective is reported"); }
  sym_reach("iface");
}
