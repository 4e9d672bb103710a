// The solver interface: reported statuses, retries, start points, row data.
#include "ifstubs.hpp"
using namespace Bonmin;
static const int N=2,M=1; static IF F; static int g_nst=NSTATUS;
static int g_pre=0;
static void draw(int k,Answer&a,StubSolver&){ if(g_pre){ a.st=TNLPSolver::solvedOptimal; return; } a.st=g_status[sc("st",g_nst,k)]; for(int i=0;i<N;i++)a.x[i]=sd("sx",k,i); for(int i=0;i<2*N;i++)a.z[i]=sd("sz",k,i); for(int i=0;i<M;i++){a.g[i]=sd("sg",k,i);a.lam[i]=sd("sl",k,i);} a.obj=sd("obj",k,-1,-100,100); }
static StubMINLP*mk(){ StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); return t; }
/* the state of the interface after the root node has been solved once */
static void root_done(){ g_pre=1; F.si->initialSolve(); g_pre=0; F.sh.calls.clear(); }
static void check_reported(OsiTMINLPInterface&si,const SolveRec&c,const char*w){ for(int i=0;i<N;i++){A(same(si.getColSolution()[i],c.sx[i]),w);A(same(si.getRowPrice()[i],c.sz[i])&&same(si.getRowPrice()[N+i],c.sz[N+i]),w);} for(int i=0;i<M;i++)A(same(si.getRowPrice()[2*N+i],c.sl[i]),w); A(same(si.getObjValue(),c.obj),w); }
static void check_status(OsiTMINLPInterface&si,int st){
  A(si.isProvenOptimal()==(st==TNLPSolver::solvedOptimal||st==TNLPSolver::solvedOptimalTol),"optimality is claimed exactly when the solver claims it");
  A(si.isProvenPrimalInfeasible()==(st==TNLPSolver::provenInfeasible),"infeasibility is claimed exactly when the solver proves it");
  A(si.isProvenDualInfeasible()==(st==TNLPSolver::unbounded),"unboundedness is claimed exactly when the solver claims it");
  A(si.isIterationLimitReached()==(st==TNLPSolver::iterationLimit),"iteration limit is reported");
  A(!(si.isAbandoned()&&(si.isProvenOptimal()||si.isProvenPrimalInfeasible())),"a failed solve is never also optimal or infeasible");
}
CASE(solve){
  F.prepare(); F.opti("num_retry_unsolved_random_point",0); F.make(mk()); F.sh.answer=draw; sym_snapshot();
  for(int i=0;i<N;i++){ double l=sd("l",i),u=sd("u",i); sym_assume(l<=u); F.si->setColLower(i,l); F.si->setColUpper(i,u); }
  DV l(F.si->getColLower(),F.si->getColLower()+N),u(F.si->getColUpper(),F.si->getColUpper()+N);
  bool threw=false; int err=0; try{ if(sc("how",2))F.si->initialSolve(); else F.si->resolve(); }catch(TNLPSolver::UnsolvedError*e){threw=true;err=e->errorNum();}
  A(F.sh.calls.size()>=1,"the NLP solver is called"); SolveRec c=F.sh.calls.back(); int st=c.status;
  for(size_t k=0;k<F.sh.calls.size();k++)for(int i=0;i<N;i++)A(same(F.sh.calls[k].l[i],l[i])&&same(F.sh.calls[k].u[i],u[i]),"the solver sees the bounds currently set");
  bool err_=st<0; if(!err_)A(F.sh.calls.size()==1||F.sh.calls[0].status<0||F.sh.calls[0].status==TNLPSolver::provenInfeasible,"a decided problem is not solved again");
  if(threw){ A(err_,"an error is raised only if the solver failed"); A(err==-4711,"the error carries the solver's code"); }
  else { A(st!=TNLPSolver::notEnoughFreedom&&st!=TNLPSolver::illDefinedProblem&&st!=TNLPSolver::illegalOption&&st!=TNLPSolver::computationError,"an unrecoverable failure is raised"); A(!err_,"a failure that no retry resolved is raised"); check_reported(*F.si,c,"reported solution is the solver's"); check_status(*F.si,st); A(!F.si->isAbandoned(),"a failure that is not raised is not left standing"); }
  sym_reach("solve");
}
CASE(robust){
  F.prepare(); F.opti("num_retry_unsolved_random_point",1); if(par("node",0)==2)F.opts("warm_start","optimum"); F.opts("nlp_failure_behavior",par("fathom",0)?"fathom":"stop"); F.sh.answer=draw; g_nst=3; sym_snapshot();
  StubMINLP*T=mk(); fill(T->x0,"x0",-20,20); F.make(T); for(int i=0;i<N;i++){ double l=sd("l",i),u=sd("u",i); sym_assume(l<=u); F.si->setColLower(i,l); F.si->setColUpper(i,u); }
  DV l(F.si->getColLower(),F.si->getColLower()+N),u(F.si->getColUpper(),F.si->getColUpper()+N); DV x(N); fill(x,"xs",-20,20); F.si->setColSolution(&x[0]);
  bool threw=false; try{ if(par("node",0)){root_done();for(int i=0;i<N;i++){F.si->setColLower(i,l[i]);F.si->setColUpper(i,u[i]);} F.si->resolve();} else F.si->initialSolve(); }catch(TNLPSolver::UnsolvedError*e){threw=true;}
  std::vector<SolveRec>&C=F.sh.calls; int nc=(int)C.size();
  for(int k=0;k<nc;k++)A(k+1==nc||C[k].status<0||(k==0&&C[k].status==TNLPSolver::provenInfeasible),"solving stops at the first success");
  A(nc<=3,"no more retries than asked for"); if(C[nc-1].status<0)A(nc==3,"all the retries asked for are made");
  if(nc>1)for(int i=0;i<N;i++)A(same(C[1].x[i],F.t->x0[i]),"the second attempt starts from the user's point");
  if(nc>2)for(int i=0;i<N;i++)A(sym_and(C[2].x[i]>=l[i],C[2].x[i]<=u[i]),"random start points lie within the bounds");
  bool failed=C[nc-1].status<0; if(!failed){ A(!threw,"no error after a success"); check_reported(*F.si,C[nc-1],"reported solution is that of the successful attempt"); check_status(*F.si,C[nc-1].status); }
  else { A(threw==(par("fathom",0)==0),"a final failure is raised unless the user asked to go on"); if(!threw){A(!F.si->isProvenOptimal(),"a failed node is not optimal"); A(!F.si->isAbandoned(),"a pretended node is not abandoned");} }
  if(!threw&&nc>1&&par("node",0)!=2){ DV x1=C[0].x; g_pre=1; F.si->resolve(); g_pre=0; for(int i=0;i<N;i++)A(same(C.back().x[i],x1[i]),"the starting point is the one from before the retries"); }
  sym_reach("robust");
}
CASE(cost){
  F.prepare(); F.opti("num_retry_unsolved_random_point",0); int nr=par("retries",2),ni=par("inf",0); if(par("node",0)==0)F.opti("num_resolve_at_root",nr); else {F.opti("num_resolve_at_node",nr);F.opti("num_resolve_at_infeasibles",ni);} if(par("node",0)==2)F.opts("warm_start","optimum"); F.make(mk()); F.sh.answer=draw; g_nst=par("nst",4); sym_snapshot();
  for(int i=0;i<N;i++){ double l=sd("l",i),u=sd("u",i); sym_assume(l<=u); F.si->setColLower(i,l); F.si->setColUpper(i,u); }
  DV l(F.si->getColLower(),F.si->getColLower()+N),u(F.si->getColUpper(),F.si->getColUpper()+N);
  bool threw=false; try{ if(par("node",0)){root_done();for(int i=0;i<N;i++){F.si->setColLower(i,l[i]);F.si->setColUpper(i,u[i]);} F.si->resolve();} else F.si->initialSolve(); }catch(TNLPSolver::UnsolvedError*e){threw=true;}
  std::vector<SolveRec>&C=F.sh.calls; int nc=(int)C.size(); if(threw||C[0].status<0){sym_reach("cost failed");return;}
  bool any=false; for(int k=0;k<nc;k++)if(C[k].status==TNLPSolver::solvedOptimal||C[k].status==TNLPSolver::solvedOptimalTol)any=true;
  if(C[0].status==TNLPSolver::solvedOptimal||C[0].status==TNLPSolver::solvedOptimalTol)A(nr>0?nc>=1+nr&&nc<=1+std::max(nr,ni):nc==1,"all the resolves asked for are made, and no others"); else if(par("node",0)&&C[0].status==TNLPSolver::provenInfeasible&&C[0].obj>=1e-6)A(nc==1+std::max(nr,ni),"an infeasible node is solved again as often as asked for");
  A(F.si->isProvenOptimal()==any,"the node is optimal exactly when one of the solves was");
  if(any){ int hit=0; for(int k=0;k<nc;k++){ bool o=C[k].status==TNLPSolver::solvedOptimal||C[k].status==TNLPSolver::solvedOptimalTol; if(o)A(F.si->getObjValue()<=C[k].obj,"the best of the solves is kept"); int eq=o; if(o){ eq=same(F.si->getObjValue(),C[k].obj); for(int i=0;i<N;i++)eq=sym_and(eq,sym_and(same(F.si->getColSolution()[i],C[k].sx[i]),sym_and(same(F.si->getRowPrice()[i],C[k].sz[i]),same(F.si->getRowPrice()[N+i],C[k].sz[N+i])))); for(int i=0;i<M;i++)eq=sym_and(eq,same(F.si->getRowPrice()[2*N+i],C[k].sl[i])); } hit=sym_or(hit,eq); } A(hit,"objective, solution and multipliers come from one and the same solve"); }
  if(C[0].status==TNLPSolver::solvedOptimal||C[0].status==TNLPSolver::solvedOptimalTol)for(int k=1;k<nc;k++)for(int i=0;i<N;i++)A(sym_and(C[k].x[i]>=l[i],C[k].x[i]<=u[i]),"random start points lie within the bounds");
  sym_reach("cost");
}
CASE(random){
  F.prepare(); F.optd("max_random_point_radius",par("radius",100000)); int type=par("type",0); if(type==1){F.opts("random_point_type","Andreas");F.optd("random_point_perturbation_interval",2.);} if(type==0)F.opts("random_point_type","Jon"); F.sh.answer=draw; sym_snapshot();
  StubMINLP*T=mk(); fill(T->x0,"x0",-20,20); F.make(T); for(int i=0;i<N;i++){ int k=sc("inf",4,i); double l=(k&1)?-1e300:sdr("l",-1e6,1e6,i),u=(k&2)?1e300:sdr("u",-1e6,1e6,i); sym_assume(l<=u); F.si->setColLower(i,l); F.si->setColUpper(i,u); }
  DV l(F.si->getColLower(),F.si->getColLower()+N),u(F.si->getColUpper(),F.si->getColUpper()+N);
  F.si->randomStartingPoint(); const double*x=F.si->getColSolution(); for(int i=0;i<N;i++){ double s=1e-9; A(x[i]>=l[i]-s*(1+std::fabs(l[i])),"random start point respects the lower bounds"); A(x[i]<=u[i]+s*(1+std::fabs(u[i])),"random start point respects the upper bounds"); }
  sym_reach("random");
}
CASE(rows){
  F.prepare(); StubMINLP*t=new StubMINLP(N,2); t->dense(); t->denseh(); sym_snapshot(); 
  for(int i=0;i<2;i++){ int k=sc("inf",4,i); t->gl[i]=(k&1)?-1.7976931348623157e308:sd("gl",i); t->gu[i]=(k&2)?1.7976931348623157e308:sd("gu",i); sym_assume(t->gl[i]<=t->gu[i]); }
  for(int i=0;i<N;i++){ int k=sc("vt",3,i); t->vt[i]=k==0?TMINLP::CONTINUOUS:k==1?TMINLP::BINARY:TMINLP::INTEGER; } fill(t->xl,"xl"); fill(t->xu,"xu");
  F.make(t); F.sh.answer=draw; OsiTMINLPInterface*s=F.si; if(sc("clone",2)){ s=(OsiTMINLPInterface*)F.si->clone(); }
  int ord=sc("ord",3); const char*se=0;const double*rh=0,*rg=0; if(ord==0){se=s->getRowSense();rh=s->getRightHandSide();rg=s->getRowRange();}else if(ord==1){rg=s->getRowRange();rh=s->getRightHandSide();se=s->getRowSense();}else{rh=s->getRightHandSide();rg=s->getRowRange();se=s->getRowSense();}
  for(int i=0;i<2;i++){ bool lo=t->gl[i]>-1e300,up=t->gu[i]<1e300; A(same(s->getRowLower()[i],t->gl[i])&&same(s->getRowUpper()[i],t->gu[i]),"row bounds are the problem's");
    if(!lo&&!up)A(se[i]=='N'&&rh[i]==0.&&rg[i]==0.,"free rows"); else if(!lo)A(se[i]=='L'&&same(rh[i],t->gu[i])&&rg[i]==0.,"<= rows"); else if(!up)A(se[i]=='G'&&same(rh[i],t->gl[i])&&rg[i]==0.,">= rows"); else if(t->gl[i]==t->gu[i])A(se[i]=='E'&&same(rh[i],t->gu[i])&&rg[i]==0.,"equality rows"); else A(se[i]=='R'&&same(rh[i],t->gu[i])&&same(rg[i],t->gu[i]-t->gl[i]),"ranged rows"); }
  for(int i=0;i<N;i++){ A(s->isContinuous(i)==(t->vt[i]==TMINLP::CONTINUOUS)&&s->isBinary(i)==(t->vt[i]==TMINLP::BINARY)&&s->isInteger(i)==(t->vt[i]!=TMINLP::CONTINUOUS)&&s->isIntegerNonBinary(i)==(t->vt[i]==TMINLP::INTEGER),"column types are the problem's"); A(same(s->getColLower()[i],t->xl[i])&&same(s->getColUpper()[i],t->xu[i]),"column bounds are the problem's"); }
  A(s->getNumCols()==N&&s->getNumRows()==2,"dimensions"); sym_reach("rows");
}
