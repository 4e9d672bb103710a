// Nodes whose NLP failed or was found infeasible: what the tree search is told to do with them.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <map>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcHeuristic.hpp"
#include "CbcNode.hpp"
#include "CbcNodeInfo.hpp"
#include "CbcFullNodeInfo.hpp"
#include "CbcPartialNodeInfo.hpp"
#include "CbcStrategy.hpp"
#include "BonCbcNlpStrategy.hpp"
#include "BonCbcNode.hpp"
#include "BonGuessHeuristic.hpp"
#include "BonChooseVariable.hpp"
#include "BonAuxInfos.hpp"
#include "BonBabInfos.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "lpstub.hpp"
using namespace Bonmin;
static const int N=2,M=1; static IF F;
/* tree bookkeeping of Cbc that does not matter here */
CbcNodeInfo::CbcNodeInfo(){} CbcNodeInfo::CbcNodeInfo(CbcNodeInfo*p,CbcNode*o):parent_(p),owner_(o){} CbcNodeInfo::CbcNodeInfo(const CbcNodeInfo&r):parent_(r.parent_),owner_(r.owner_){} CbcNodeInfo::~CbcNodeInfo(){}
CbcFullNodeInfo::CbcFullNodeInfo(){} CbcFullNodeInfo::CbcFullNodeInfo(CbcModel*,int){} CbcFullNodeInfo::CbcFullNodeInfo(const CbcFullNodeInfo&r):CbcNodeInfo(r){} CbcFullNodeInfo::~CbcFullNodeInfo(){}
CbcPartialNodeInfo::CbcPartialNodeInfo(){} CbcPartialNodeInfo::CbcPartialNodeInfo(CbcNodeInfo*p,CbcNode*o,int,const int*,const double*,const CoinWarmStartDiff*):CbcNodeInfo(p,o){} CbcPartialNodeInfo::CbcPartialNodeInfo(const CbcPartialNodeInfo&r):CbcNodeInfo(r){} CbcPartialNodeInfo::~CbcPartialNodeInfo(){}
static int g_lvl=0; static int g_kind[4];
static const TNLPSolver::ReturnStatus g_fail[]={TNLPSolver::iterationLimit,TNLPSolver::doesNotConverge,TNLPSolver::externalException,TNLPSolver::exception};
static void answer(int k,Answer&a,StubSolver&){ int w=g_kind[g_lvl]; for(int i=0;i<N;i++)a.x[i]=sdr("x",-2,4,k,i); a.obj=sdr("obj",-4,4,k); a.st=w==0?TNLPSolver::solvedOptimal:w==1?TNLPSolver::provenInfeasible:g_fail[w-2+par("fk",0)]; }
static int fractional(double v){ int f=0; for(int k=-5;k<8;k++)f=sym_or(f,sym_and(v>k+0.125,v<k+0.875)); return f; }
// a path down the tree from the root: level by level, the node is solved, its fate decided, its record made
CASE(chain){
  int L=par("levels",3); F.prepare(); F.opti("num_retry_unsolved_random_point",par("retry",0)); F.opts("nlp_failure_behavior",par("fathom",0)?"fathom":"stop"); F.sh.answer=answer; StubMINLP*T=new StubMINLP(N,M); T->dense(); T->denseh(); for(int i=0;i<N;i++)T->vt[i]=par("cont",0)==i+1?TMINLP::CONTINUOUS:TMINLP::INTEGER; sym_snapshot();
  F.make(T); OsiTMINLPInterface*s=F.si; s->ignoreFailures(); for(int i=0;i<N;i++){ s->setColLower(i,-1); s->setColUpper(i,3); }
  int mf=sc("maxfail",3),mi=sc("maxinf",4); CbcNlpStrategy st0(mf,mi,par("fathom",0)); CbcNlpStrategy*st=(CbcNlpStrategy*)st0.clone(); CbcModel*m=new CbcModel; m->solver_=s; m->handler_=new CoinMessageHandler; m->handler_->setLogLevel(0);
  g_lvl=0; g_kind[0]=0; s->initialSolve(); A(st->status(m,NULL,0)==-1,"a solved root is left alone"); CbcNodeInfo*info=st->fullNodeInfo(m,M); int nf=0,ni=0; bool any=false;
  for(int l=1;l<=L;l++){ g_lvl=l; int w=g_kind[l]=sc("end",par("ends",6),l); if(L==1){ for(int i=0;i<N;i++){ double lo=sc("lo",2,l,i),up=lo+sc("wd",2,l,i); s->setColLower(i,lo); s->setColUpper(i,up); } } else { int fx=sc("fixed",2,l); s->setColLower(0,fx); s->setColUpper(0,1); s->setColLower(1,fx?2:0); s->setColUpper(1,2); }
    if(par("init",0))s->initialSolve(); else s->resolve();
    A(s->isProvenOptimal()==(w==0),"optimality is claimed exactly when the solver claims it"); A(s->isProvenPrimalInfeasible()==(w==1),"infeasibility is claimed exactly when the solver proves it");
    bool free=false; for(int i=0;i<N;i++)if(T->vt[i]!=TMINLP::CONTINUOUS&&s->getColUpper()[i]>s->getColLower()[i])free=true;
    DV x(s->getColSolution(),s->getColSolution()+N); double obj=s->getObjValue(); bool threw=false; int rc=-9; try{ rc=st->status(m,info,1); }catch(TNLPSolver::UnsolvedError*e){ threw=true; }
    bool fail=w>=2,inf=w==1; nf=fail?nf+1:0; ni=inf?ni+1:0; bool branch=free&&((fail&&nf<=mf)||(inf&&ni<mi)); if(fail&&!branch)any=true;
    A(threw==(fail&&!branch&&!par("fathom",0)),"the search stops exactly when a failure may no longer be passed over"); if(threw){ A(st->hasFailed(),"the failure is recorded"); sym_reach("stopped"); return; }
    if(branch){ A(rc==0,"the node is branched on"); A(!s->isAbandoned(),"a node to be branched on does not stop the search"); if(fail)A(s->isProvenOptimal(),"a failed node to be branched on goes on as if it were solved"); A(s->getObjValue()<-1e50,"a node to be branched on is not cut off");
      int f=0; for(int i=0;i<N;i++){ double v=s->getColSolution()[i]; if(T->vt[i]!=TMINLP::CONTINUOUS){ int in=sym_and(v>=s->getColLower()[i],v<=s->getColUpper()[i]); int fr=fractional(v); f=sym_or(f,sym_and(in,fr)); A(sym_or(same(v,x[i]),in),"values made up to branch on lie within the bounds"); } else A(same(v,x[i]),"continuous variables keep their value"); } A(f,"a node to be branched on has a fractional integer variable"); sym_reach("branch"); }
    else if(fail){ A(rc==2,"a failed node is dropped as asked for"); A(!s->isProvenOptimal(),"a dropped node is not optimal"); A(!s->isAbandoned(),"a dropped node does not stop the search"); sym_reach("dropped"); }
    else { A(rc==-1,"the search is told nothing about a decided node"); A(s->isProvenOptimal()==(w==0)&&s->isProvenPrimalInfeasible()==inf,"the status of a decided node is left alone"); for(int i=0;i<N;i++)A(same(s->getColSolution()[i],x[i]),"the solution of a decided node is left alone"); A(same(s->getObjValue(),obj),"the objective of a decided node is left alone"); }
    A(st->hasFailed()==any,"a node dropped after a failure, and nothing else, is recorded as a failure"); if(inf&&!branch||fail&&!branch)break; /* no children */
    info=st->partialNodeInfo(m,info,NULL,0,NULL,NULL,NULL); if(par("copy",0))info=info->clone(); }
  sym_reach("chain");
}
// what is recorded for a node without a Bonmin record
CASE(foreign){
  F.prepare(); F.opti("num_retry_unsolved_random_point",0); F.sh.answer=answer; StubMINLP*T=new StubMINLP(N,M); T->dense(); T->denseh(); sym_snapshot(); F.make(T); F.si->ignoreFailures(); g_kind[0]=sc("end",2); F.si->initialSolve(); CbcNlpStrategy st(2,2,0); CbcModel*m=new CbcModel; m->solver_=F.si; A(st.status(m,NULL,0)==-1,"without a record of the parent nothing is changed"); A(!st.hasFailed(),"nothing failed"); sym_reach("foreign");
}
// the estimate of the best solution below a node
struct EO: public OsiObject{ double u,d; EO():u(0),d(0){} OsiObject*clone()const{return new EO(*this);} double infeasibility(const OsiBranchingInformation*,int&w)const{w=0;return 0;} double feasibleRegion(OsiSolverInterface*,const OsiBranchingInformation*)const{return 0;} double upEstimate()const{return u;} double downEstimate()const{return d;} };
CASE(guess){
  F.prepare(); F.opti("bb_log_level",0); int n=2; StubLP*s=new StubLP; s->dims(n,0); std::vector<OsiObject*> ob; for(int i=0;i<n;i++)ob.push_back(new EO); s->addObjects(n,ob.data()); CbcModel*m=new CbcModel; m->handler_=new CoinMessageHandler; m->handler_->setLogLevel(0); sym_snapshot();
  BonChooseVariable*c=new BonChooseVariable(*F.b,s); CbcBranchDecision*d=(CbcBranchDecision*)calloc(1,sizeof(CbcBranchDecision)); d->chooseMethod_=c; m->branchingMethod_=d; EO*o[2]; OsiObject*po[2]; double t[2][2]; int k[2][2];
  for(int i=0;i<n;i++){ po[i]=o[i]=new EO; o[i]->u=sdr("ue",0,1,i); o[i]->d=sdr("de",0,1,i); c->pseudoCosts_.upTotalChange()[i]=t[i][1]=par("sym",1)?sdr("ut",0,8,i):i+1; c->pseudoCosts_.downTotalChange()[i]=t[i][0]=par("sym",1)?sdr("dt",0,8,i):2-i; int a=sc("un",3,i),b=sc("dn",3,i); c->pseudoCosts_.upNumber()[i]=k[i][1]=a; c->pseudoCosts_.downNumber()[i]=k[i][0]=b; if(!a)sym_assume(t[i][1]==0); if(!b)sym_assume(t[i][0]==0); }
  m->object_=po; m->numberObjects_=n; double z=sdr("z",-8,8); m->dblParam_[CbcModel::CbcCurrentMinimizationObjectiveValue]=z;
  GuessHeuristic h0(*m); GuessHeuristic*h=par("copy",0)?(GuessHeuristic*)h0.clone():&h0; double v=77; DV bs(n,5.); int rc=h->solution(v,&bs[0]); A(rc<=0,"an estimate is not a solution"); for(int i=0;i<n;i++)A(bs[i]==5.,"an estimate is not a solution");
  int nu=k[0][1]+k[1][1],nd=k[0][0]+k[1][0]; if(!nu||!nd){ A(v>1e50,"without any history there is no estimate"); sym_reach("none"); return; }
  double e=z; for(int i=0;i<n;i++){ double up=o[i]->u*(k[i][1]?t[i][1]/k[i][1]:(t[0][1]+t[1][1])/nu), dn=o[i]->d*(k[i][0]?t[i][0]/k[i][0]:(t[0][0]+t[1][0])/nd); e+=(up<dn?up:dn); } A(sym_near(v,e,1e-6),"the estimate is the bound plus the cheaper way of each object"); sym_reach("guess");
}
// the solution an NLP solver found, as passed between the parts of the search
CASE(info){
  int copy=par("copy",0); sym_snapshot(); BabInfo*a=new BabInfo(2); A(a->nlpSolution()==NULL,"nothing is passed at first"); A(a->nlpObjValue()>1e50,"nothing is passed at first"); A(!a->infeasibleNode(),"a node is not infeasible at first");
  int n=0; DV cur; double ob=0; bool has=false; int K=par("steps",3); for(int st=0;st<K;st++){ int op=sc("op",4,st); if(op<2){ n=1+sc("n",3,st); cur.assign(n,0); for(int i=0;i<n;i++)cur[i]=sd("v",st,i); ob=sd("o",st); DV in(cur); a->setNlpSolution(&in[0],n,ob); for(int i=0;i<n;i++)in[i]=-99; if(op==1){ a->setHasNlpSolution(true); has=true; } } else if(op==2){ has=false; a->setHasNlpSolution(false); } else { BabInfo*b=(BabInfo*)a->clone(); if(n)a->setNlpSolution(DV(n,-77.).data(),n,-5); a->setHasNlpSolution(false); delete a; a=b; }
    const double*x=a->nlpSolution(); A((x!=NULL)==has,"a solution is passed exactly when there is one"); if(has&&x){ for(int i=0;i<n;i++)A(same(x[i],cur[i]),"the solution passed on is the one given"); A(same(x[n],ob),"its objective follows"); A(same(a->nlpObjValue(),ob),"its objective is passed on"); } else A(a->nlpObjValue()>1e50,"no objective without a solution"); }
  sym_reach("info");
}
