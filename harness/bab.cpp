// Branch-and-bound driver (Bab): what is reported at the end, and what Cbc is given at the start.
// Cbc's search is replaced by a stand-in that ends in any way Cbc can end.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#include <sys/resource.h>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcObject.hpp"
#include "CbcBranchActual.hpp"
#include "OsiBranchingObject.hpp"
#include "OsiSolverInterface.hpp"
#include "CbcSOS.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "BonCbc.hpp"
#include "BonCbcNlpStrategy.hpp"
#include "BonAuxInfos.hpp"
#include "CbcBranchDefaultDecision.hpp"
using namespace Bonmin;
extern bool BonminAbortAll;
static const int N=2,M=1; static IF F; static int g_run,g_init,g_time; static bool g_usetime=false,g_throwI,g_throwB;
extern "C" int getrusage(__rusage_who_t,struct rusage*r) noexcept { memset(r,0,sizeof *r); if(g_usetime&&g_time<4){ static long t=0; static const int d[]={0,10,60}; t+=d[sc("sec",3,g_time++)]; r->ru_utime.tv_sec=t; } return 0; }
static struct Out{ int status; bool unb,sol,sol2,fail,abort; double x[2],x2[2],obj,obj2,bound; int nodes,iters; } O;
static struct In{ double cutoff; int strong,trust; std::vector<OsiObject*> objs; } I; static CbcModel*g_model;
void CbcModel::initialSolve(){ g_init++; if(g_throwI)throw F.ss()->newUnsolvedError(1,NULL,"x"); solver_->initialSolve(); }
bool CbcModel::isContinuousUnbounded()const{return O.unb;}
double CbcModel::getBestPossibleObjValue()const{return O.bound;}
void CbcModel::setCutoff(double v){ I.cutoff=v; }
void CbcModel::setNumberStrong(int v){ I.strong=v; } void CbcModel::setNumberBeforeTrust(int v){ I.trust=v; }
static void (*g_look)(CbcModel&)=0;
void CbcModel::branchAndBound(int){ g_run++; g_model=this; if(g_look)g_look(*this); if(g_throwB)throw F.ss()->newUnsolvedError(1,NULL,"x");
  status_=O.status; bestObjective_=O.obj; numberNodes_=O.nodes; numberIterations_=O.iters; delete[] bestSolution_; bestSolution_=0; if(O.sol){ bestSolution_=new double[N+1]; for(int i=0;i<N;i++)bestSolution_[i]=O.x[i]; bestSolution_[N]=0; }
  AuxInfo*a=dynamic_cast<AuxInfo*>(solver_->getAuxiliaryInfo()); if(O.sol2&&a){ a->setBestSolution2(N,O.x2); a->setBestObj2(O.obj2); } BonminAbortAll=O.abort; }
static bool g_live=false; static void draw(int k,Answer&a,StubSolver&){ if(!g_live)return; a.st=g_status[sc("st",par("nst",5),k)]; for(int i=0;i<N;i++)a.x[i]=sd("sx",k,i); a.obj=sd("sobj",k); }
static BonminSetup*B; static SmartPtr<TMINLP> keep;
static void setup(StubMINLP*t,const char*algo,const char*vs){ F.prepare(); F.opts("algorithm",algo); if(vs)F.opts("variable_selection",vs); F.sh.answer=draw; F.make(t); B=new BonminSetup(); B->initialize(*F.si,true); F.sh.calls.clear(); g_live=true; }
static void drawout(){ O.status=sc("cbc",4); if(O.status==3)O.status=5; O.unb=O.status==0?sc("unb",2):0; O.sol=O.status==0&&O.unb?false:sc("sol",2); O.sol2=sc("sol2",par("aux",0)+1); O.abort=O.status==5?sc("abort",2):0; for(int i=0;i<N;i++){O.x[i]=sd("bx",i);O.x2[i]=sd("bx2",i);} O.obj=O.sol?sd("bobj"):1e50; O.obj2=sd("bobj2"); O.bound=sd("bbound"); O.nodes=si("nodes",0,1000); O.iters=si("iters",0,1000); }
static void check_final(StubMINLP*t,Bab&bb,int st,int ms,const double*x,double obj){ A(t->fin==1,"the user is told the result once"); A(t->fin_status==st,"the status told to the user is the outcome of the search"); A(bb.mipStatus()==ms,"the status kept is the outcome of the search"); A(t->fin_hasx==(x!=0)&&(bb.bestSolution()!=0)==(x!=0),"a solution is reported exactly when one was found");
  if(x&&bb.bestSolution()&&t->fin_hasx)for(int i=0;i<N;i++)A(same(t->fin_x[i],x[i])&&same(bb.bestSolution()[i],x[i]),"the solution reported is the one found"); if(x)A(same(t->fin_obj,obj)&&same(bb.bestObj(),obj),"the objective reported is that of the solution"); if(!x)A(bb.bestObj()>1e40||ms==Bab::UnboundedOrInfeasible,"no objective without a solution"); A((int)t->fin_x.size()==N||!x,"size of the solution"); }
// end of the search, with discrete variables
CASE(report){
  StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->vt[0]=TMINLP::BINARY; keep=t; setup(t,par("oa",0)?"B-OA":"B-BB",par("cbc",0)?"most-fractional":0); g_init=g_run=0; g_usetime=par("time",0); sym_snapshot(); drawout(); g_throwB=sc("thr",2); g_throwI=g_throwB?0:sc("thri",2); double mt=g_usetime?sdr("limit",0,100):1e10; B->setDoubleParameter(BabSetupBase::MaxTime,mt);
  Bab bb; bool threw=false; try{ bb(*B); }catch(TNLPSolver::UnsolvedError*e){threw=true;}
  A(g_init>=1||threw,"the root is solved"); if(threw){ A(g_throwB||g_throwI||(!F.sh.calls.empty()&&F.sh.calls.back().status<0),"an error comes from a failed solve"); A(t->fin==1&&t->fin_status==TMINLP::MINLP_ERROR&&!t->fin_hasx,"after an error the user is told so, without a solution"); A(bb.mipStatus()!=Bab::FeasibleOptimal&&bb.mipStatus()!=Bab::ProvenInfeasible,"nothing is claimed after an error"); sym_reach("threw"); return; }
  A(!g_throwI&&(!g_throwB||!g_run),"a failure is not swallowed"); bool timeout=g_run==0; if(!g_usetime)A(!timeout,"the tree search is run"); const double*x=timeout?0:O.sol2?O.x2:O.sol?O.x:0; double obj=O.sol2?O.obj2:O.obj; A(bb.model().getNodeCount()==bb.numNodes(),"nodes"); if(!timeout)A(bb.numNodes()==O.nodes&&bb.iterationCount()==O.iters,"nodes and iterations are those of the search");
  if(timeout)check_final(t,bb,TMINLP::LIMIT_EXCEEDED,Bab::NoSolutionKnown,0,0); else if(O.status==0&&O.unb){ A(t->fin==1&&t->fin_status==TMINLP::CONTINUOUS_UNBOUNDED&&bb.mipStatus()==Bab::UnboundedOrInfeasible,"an unbounded relaxation is reported"); } else if(O.status==0)check_final(t,bb,x?TMINLP::SUCCESS:TMINLP::INFEASIBLE,x?Bab::FeasibleOptimal:Bab::ProvenInfeasible,x,obj); else if(O.status==1)check_final(t,bb,TMINLP::LIMIT_EXCEEDED,x?Bab::Feasible:Bab::NoSolutionKnown,x,obj); else if(O.status==5)check_final(t,bb,TMINLP::USER_INTERRUPT,x?Bab::Feasible:Bab::NoSolutionKnown,x,obj); else check_final(t,bb,TMINLP::MINLP_ERROR,x?Bab::Feasible:Bab::NoSolutionKnown,x,obj);
  if(bb.mipStatus()==Bab::ProvenInfeasible)A(bb.bestBound()>=1e40,"bound of an infeasible problem"); else if(!timeout)A(same(bb.bestBound(),O.bound),"the bound reported is that of the search"); if(!timeout&&!par("oa",0))A(same(bb.continuousRelaxation(),F.sh.calls.back().obj),"the relaxation value is that of the root"); sym_reach("report");
}
// end of the search, without discrete variables: the root decides
CASE(continuous){
  StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); keep=t; setup(t,"B-BB",par("cbc",0)?"most-fractional":0); g_init=g_run=0; sym_snapshot(); O.status=sc("cbc",3); O.sol=0; O.obj=1e50; g_throwB=g_throwI=0;
  Bab bb; bool threw=false; try{ bb(*B); }catch(TNLPSolver::UnsolvedError*e){threw=true;} A(F.sh.calls.size()>=1,"the root is solved"); const SolveRec c=F.sh.calls.back();
  if(threw){ A(c.status<0,"an error comes from a failed solve"); A(t->fin==1&&t->fin_status==TMINLP::MINLP_ERROR&&!t->fin_hasx,"after an error the user is told so, without a solution"); return; }
  if(c.status==TNLPSolver::solvedOptimal||c.status==TNLPSolver::solvedOptimalTol){ check_final(t,bb,TMINLP::SUCCESS,Bab::FeasibleOptimal,&c.sx[0],c.obj); A(same(bb.bestBound(),c.obj),"the bound is the optimal value"); } else if(c.status==TNLPSolver::provenInfeasible)check_final(t,bb,TMINLP::INFEASIBLE,Bab::ProvenInfeasible,0,0); else if(c.status==TNLPSolver::unbounded)check_final(t,bb,TMINLP::CONTINUOUS_UNBOUNDED,Bab::UnboundedOrInfeasible,0,0); else check_final(t,bb,TMINLP::MINLP_ERROR,Bab::NoSolutionKnown,0,0); sym_reach("continuous");
}
// options and limits
struct SymOpt: public Ipopt::OptionsList{ std::map<std::string,int> iv; std::map<std::string,double> dv; SymOpt(const Ipopt::OptionsList&o):Ipopt::OptionsList(o){}
  bool GetIntegerValue(const std::string&t,Index&v,const std::string&p)const{ auto i=iv.find(t); if(i!=iv.end()){v=i->second;return true;} return Ipopt::OptionsList::GetIntegerValue(t,v,p); }
  bool GetEnumValue(const std::string&t,Index&v,const std::string&p)const{ auto i=iv.find(t); if(i!=iv.end()){v=i->second;return true;} return Ipopt::OptionsList::GetEnumValue(t,v,p); }
  bool GetNumericValue(const std::string&t,Number&v,const std::string&p)const{ auto i=dv.find(t); if(i!=dv.end()){v=i->second;return true;} return Ipopt::OptionsList::GetNumericValue(t,v,p); } };
static SmartPtr<SymOpt> SO;
static void look_params(CbcModel&m){ 
  A(m.getMaximumNodes()==SO->iv["node_limit"],"the node limit is the user's"); A(m.getMaximumSolutions()==SO->iv["solution_limit"],"the solution limit is the user's"); A(m.maximumNumberIterations_==SO->iv["iteration_limit"],"the iteration limit is the user's"); A(same(m.getIntegerTolerance(),SO->dv["integer_tolerance"]),"the integer tolerance is the user's"); A(same(m.getAllowableGap(),SO->dv["allowable_gap"])&&same(m.getAllowableFractionGap(),SO->dv["allowable_fraction_gap"]),"the gaps are the user's"); A(same(m.getDblParam(CbcModel::CbcCutoffIncrement),SO->dv["cutoff_decr"]),"the cutoff decrement is the user's"); A(I.cutoff>=SO->dv["cutoff"]&&I.cutoff<=SO->dv["cutoff"]+1.1e-6,"the cutoff is the user's"); A(sym_near(m.getMaximumSeconds(),SO->dv["time_limit"],1e-3),"the time limit is the user's"); A(I.strong==SO->iv["number_strong_branch"]&&I.trust==SO->iv["number_before_trust"],"the strong branching limits are the user's"); A(m.getMaximumCutPasses()==SO->iv["num_cut_passes"]&&m.getMaximumCutPassesAtRoot()==SO->iv["num_cut_passes_at_root"],"the cut passes are the user's"); sym_reach("params"); }
CASE(params){
  StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->vt[0]=TMINLP::BINARY; keep=t; setup(t,par("oa",0)?"B-OA":"B-BB",par("cbc",0)?"strong-branching":0); SO=new SymOpt(*F.b->options()); sym_snapshot(); const char*in[]={"node_limit","solution_limit","iteration_limit","number_strong_branch","number_before_trust","num_cut_passes","num_cut_passes_at_root","max_consecutive_failures","max_consecutive_infeasible"}; for(int i=0;i<9;i++)SO->iv[in[i]]=si(in[i],0,100000); const char*dn[]={"integer_tolerance","allowable_gap","allowable_fraction_gap","cutoff_decr","cutoff","time_limit"}; for(int i=0;i<6;i++)SO->dv[dn[i]]=sdr(dn[i],i==4?-1e6:1,i<4?8:1e6);
  B->gatherParametersValues(GetRawPtr(SO)); O.status=0; O.sol=0; O.obj=1e50; g_throwB=g_throwI=0; g_look=look_params; BonminSetup*s=B; if(par("oa",0)==0&&sc("copy",2)){ s=new BonminSetup(*B); } Bab bb; bb(*s); A(g_run==1,"the search is run"); }

// branching priorities, directions and special ordered sets
static void app(CbcModel*m,int n,OsiObject**o){ OsiObject**t=new OsiObject*[m->numberObjects_+n]; for(int i=0;i<m->numberObjects_;i++)t[i]=m->object_[i]; for(int i=0;i<n;i++){ OsiObject*c=o[i]->clone(); c->setPriority(o[i]->priority()); OsiObject2*a=dynamic_cast<OsiObject2*>(o[i]),*b=dynamic_cast<OsiObject2*>(c); if(a&&b)b->setPreferredWay(a->preferredWay()); t[m->numberObjects_+i]=c; } delete[] m->object_; m->object_=t; m->numberObjects_+=n; }
void CbcModel::addObjects(int n,OsiObject**o){ app(this,n,o); }
void CbcModel::addObjects(int n,CbcObject**o){ std::vector<OsiObject*> t(o,o+n); app(this,n,t.data()); }
void OsiSolverInterface::addObjects(int n,OsiObject**o){ OsiObject**t=new OsiObject*[numberObjects_+n]; for(int i=0;i<numberObjects_;i++)t[i]=object_[i]; for(int i=0;i<n;i++){ t[numberObjects_+i]=o[i]->clone(); t[numberObjects_+i]->setPriority(o[i]->priority()); } delete[] object_; object_=t; numberObjects_+=n; }
static TMINLP::SosInfo*g_sos; static TMINLP::BranchingInfo*g_br; static StubMINLP*T; static bool g_cbc; static int g_nint,g_int[3];
static void look_objects(CbcModel&m){ std::vector<OsiObject*> all; for(int i=0;i<m.numberObjects();i++)all.push_back(m.objects()[i]);
  int nsos=g_sos?g_sos->num:0; A((int)all.size()==g_nint+nsos,"one object per integer variable and per set"); if((int)all.size()!=g_nint+nsos)return;
  for(int i=0;i<g_nint;i++){ int c=all[i]->columnNumber(); A(c==g_int[i],"objects are those of the integer variables"); if(g_br&&g_br->priorities)A(all[i]->priority()==g_br->priorities[c],"the priority of a variable is the user's"); if(g_br&&g_br->branchingDirections){ int w=0; if(g_cbc){ CbcObject*o=dynamic_cast<CbcObject*>(all[i]); A(o!=0,"Cbc object"); if(!o)return; w=o->preferredWay(); } else { OsiObject2*o=dynamic_cast<OsiObject2*>(all[i]); A(o!=0,"Osi object"); if(!o)return; w=o->preferredWay(); } A(w==g_br->branchingDirections[c],"the branching direction of a variable is the user's"); }
    if(g_br&&g_br->upPsCosts){ CbcSimpleIntegerPseudoCost*p=dynamic_cast<CbcSimpleIntegerPseudoCost*>(all[i]); A(p!=0,"pseudo-cost object"); if(p)A(same(p->upPseudoCost(),g_br->upPsCosts[c])&&same(p->downPseudoCost(),g_br->downPsCosts[c]),"the pseudo-costs of a variable are the user's"); } }
  for(int k=0;k<nsos;k++){ OsiObject*o=all[g_nint+k]; int s0=g_sos->starts[k],len=g_sos->starts[k+1]-s0; int n=-1,ty=-1; const int*mem=0; const double*w=0; if(g_cbc){ CbcSOS*c=dynamic_cast<CbcSOS*>(o); A(c!=0,"set object"); if(!c)return; n=c->numberMembers(); mem=c->members(); w=c->weights_; ty=c->sosType(); } else { OsiSOS*c=dynamic_cast<OsiSOS*>(o); A(c!=0,"set object"); if(!c)return; n=c->numberMembers(); mem=c->members(); w=c->weights(); ty=c->sosType(); }
    A(n==len&&ty==g_sos->types[k],"the size and the type of a set are the user's"); if(n!=len)return; for(int i=0;i<len;i++)A(mem[i]==g_sos->indices[s0+i]&&w[i]==g_sos->weights[s0+i],"the members and weights of a set are the user's"); A(o->priority()==(g_sos->priorities[k]?g_sos->priorities[k]:10),"the priority of a set is the user's"); } sym_reach("objects"); }
CASE(objects){
  const int n=3; F.prepare(); F.opts("algorithm",par("oa",0)?"B-OA":"B-BB"); g_cbc=par("cbc",0)||par("oa",0); if(par("cbc",0))F.opts("variable_selection","strong-branching"); F.sh.answer=draw; T=new StubMINLP(n,M); T->dense(); T->denseh(); keep=T; sym_snapshot(); int nv=sc("types",4); T->vt[0]=nv==0?TMINLP::BINARY:TMINLP::CONTINUOUS; T->vt[1]=nv==1?TMINLP::INTEGER:nv==2?TMINLP::CONTINUOUS:TMINLP::BINARY; T->vt[2]=nv==2?TMINLP::CONTINUOUS:TMINLP::INTEGER; if(nv==3)T->vt[0]=TMINLP::INTEGER; g_nint=0; for(int i=0;i<n;i++)if(T->vt[i]!=TMINLP::CONTINUOUS)g_int[g_nint++]=i;
  int bi=sc("br",g_cbc?5:4); if(bi){ g_br=new TMINLP::BranchingInfo; g_br->size=n; if(bi&1){ g_br->priorities=new int[n]; for(int i=0;i<n;i++)g_br->priorities[i]=si("prio",0,1000,i); } if(bi&2){ g_br->branchingDirections=new int[n]; for(int i=0;i<n;i++)g_br->branchingDirections[i]=i==0?1:sc("dir",3,i)-1; } if(bi==4){ g_br->upPsCosts=new double[n]; g_br->downPsCosts=new double[n]; for(int i=0;i<n;i++){g_br->upPsCosts[i]=sdr("up",0,8,i);g_br->downPsCosts[i]=sdr("down",0,8,i);} } T->br=g_br; }
  int ns=sc("sos",3); bool copy=ns&&sc("sc",2); if(ns){ TMINLP::SosInfo*s=new TMINLP::SosInfo; s->num=ns; s->numNz=3*ns-1; s->types=new char[ns]; s->priorities=new int[ns]; s->starts=new int[ns+1]; s->indices=new int[s->numNz]; s->weights=new double[s->numNz]; int p=0; static const int ix[]={2,0,1,0,2}; for(int k=0;k<ns;k++){ s->starts[k]=p; s->types[k]=1+sc("ty",2,k); s->priorities[k]=si("sprio",0,1000,k); int len=(ns==1)?2:(k?2:3); for(int i=0;i<len;i++,p++){ s->indices[p]=ix[p]; s->weights[p]=1+i*(k+1.5); } } s->starts[ns]=p; g_sos=new TMINLP::SosInfo; g_sos->num=ns; g_sos->numNz=s->numNz; g_sos->types=new char[ns]; g_sos->priorities=new int[ns]; g_sos->starts=new int[ns+1]; g_sos->indices=new int[p]; g_sos->weights=new double[p]; for(int k=0;k<ns;k++){g_sos->types[k]=s->types[k];g_sos->priorities[k]=s->priorities[k];g_sos->starts[k]=s->starts[k];} g_sos->starts[ns]=p; for(int i=0;i<p;i++){g_sos->indices[i]=s->indices[i];g_sos->weights[i]=s->weights[i];} T->sos=copy?new TMINLP::SosInfo(*s):s; if(copy)delete s; }
  F.make(T); B=new BonminSetup(); B->initialize(*F.si,true); F.sh.calls.clear(); O.status=0; O.sol=0; O.obj=1e50; g_throwB=g_throwI=0; g_look=look_objects; Bab bb; bb(*B); A(g_run==1,"the search is run"); }
