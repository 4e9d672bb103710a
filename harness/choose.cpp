// Branching decisions (BonChooseVariable, HotInfo): candidates, strong branching, forced branches, restored bounds, pseudo-costs.
// Osi's book-keeping of one branch (OsiHotInfo::updateInformation) is an encoded stand-in.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "OsiChooseVariable.hpp"
#include "CbcModel.hpp"
#include "BonChooseVariable.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "lpstub.hpp"
using namespace Bonmin;
static const int NO=4; static double g_val[NO],g_bv[NO]; static int g_st[NO][2],g_done[NO][2],g_extra; static double g_ob[NO][2]; static DV g_l,g_u; static double g_cut; static int g_hot; static int g_n;
struct SLP: public StubLP{ int cur,way; SLP():cur(-1),way(-1){} void markHotStart(){g_hot++;} void unmarkHotStart(){g_hot--;} void solveFromHotStart(){ A(g_hot==1,"branches are solved between marking and unmarking the hot start"); int hit=0; for(int i=0;i<n;i++){ int dn=(cu[i]!=g_u[i])?1:0, up=(cl[i]!=g_l[i])?1:0; hit+=dn+up; if(dn){cur=i;way=0;A(cu[i]==g_bv[i],"the branch solved is the candidate's");} if(up){cur=i;way=1;A(cl[i]==g_bv[i]+1,"the branch solved is the candidate's");} } A(hit==1,"each branch is solved with the node's bounds and one branch applied"); status=g_st[cur][way]; objv=g_ob[cur][way]; g_done[cur][way]++; } OsiSolverInterface*clone(bool)const{return new SLP(*this);} };
struct BO: public OsiBranchingObject{ int col; int first; BO(int c,int w):col(c),first(w){ numberBranches_=2; branchIndex_=0; } OsiBranchingObject*clone()const{return new BO(*this);} double branch(OsiSolverInterface*s){ int w=branchIndex_?1-first:first; branchIndex_++; if(w)s->setColLower(col,g_bv[col]+1); else s->setColUpper(col,g_bv[col]); return 0; } };
struct OB: public OsiObject{ int col; int pref; OB(int c):col(c),pref(-1){} OsiObject*clone()const{return new OB(*this);} double infeasibility(const OsiBranchingInformation*,int&w)const{ w=0; infeasibility_=g_val[col]; return g_val[col]; } double checkInfeasibility(const OsiBranchingInformation*)const{return g_val[col];} double feasibleRegion(OsiSolverInterface*,const OsiBranchingInformation*)const{return 0;} using OsiObject::feasibleRegion; OsiBranchingObject*createBranch(OsiSolverInterface*,const OsiBranchingInformation*,int w)const{return new BO(col,w);} int columnNumber()const{return col;} double ue=0.5; double upEstimate()const{return ue;} double downEstimate()const{return ue;} bool boundBranch()const{return true;} int preferredWay()const{return pref;} };
// what Osi notes about a branch
int OsiHotInfo::updateInformation(const OsiSolverInterface*s,const OsiBranchingInformation*info,OsiChooseVariable*ch){ int k=branchingObject_->branchIndex()-1; int st; if(s->isProvenOptimal())st=0; else if(s->isIterationLimitReached()&&!s->isDualObjectiveLimitReached())st=2; else st=1; if(st<1){ double v=s->getObjValue(); double c=v-info->objectiveValue_; changes_[k]=c>0?c:0; if(ch->trustStrongForBound()&&v>=info->cutoff_){ st=1; changes_[k]=1e100; } } else if(st==1)changes_[k]=1e100; statuses_[k]=st; ch->updateInformation(info,k,this); return st; }
static IF F; 
static const int g_codes[]={0,1,3,4};
CASE(choose){
  F.prepare(); int n=g_n=par("n",3); int strong=par("strong",2),root=par("root",0),look=par("look",0),rel=par("rel",0),depth=par("depth",1); F.opti("number_strong_branch_root",root); F.opti("number_look_ahead",look); F.optd("setup_pseudo_frac",par("frac",50)/100.); F.opti("bb_log_level",0); F.opts("trust_strong_branching_for_pseudo_cost",par("trust",1)?"yes":"no"); if(par("tl",-2)>-2)F.opti("number_before_trust_list",par("tl",0)); if(par("minst",0))F.opti("min_number_strong_branch",par("minst",0));
  F.b->setIntParameter(BabSetupBase::NumberStrong,strong); F.b->setIntParameter(BabSetupBase::MinReliability,rel);
  SLP*s=new SLP; s->dims(n,0); std::vector<OsiObject*> ob; for(int i=0;i<n;i++)ob.push_back(new OB(i)); s->addObjects(n,ob.data()); if(s->numberObjects()!=n)abort(); sym_snapshot();
  BonChooseVariable c0(*F.b,s); BonChooseVariable*c=par("copy",0)?(BonChooseVariable*)c0.clone():&c0; c->setTrustStrongForSolution(false);
  g_l.assign(n,0);g_u.assign(n,0); int best=1000; int nuns=0,ninf=0; int uns[NO],pr[NO]; int upn[NO],dnn[NO]; double upt[NO],dnt[NO];
  for(int i=0;i<n;i++){ g_l[i]=s->cl[i]=sd("l",i); g_u[i]=s->cu[i]=sd("u",i); g_bv[i]=sd("b",i); sym_assume(sym_and(g_l[i]<=g_bv[i],g_bv[i]+1<=g_u[i])); int k=sc("kind",(i==n-1&&par("inf",0))?3:2,i); uns[i]=k!=1; if(k==1)g_val[i]=0; else if(k==2){g_val[i]=1e51;ninf++;} else g_val[i]=sdr("frac",1./64,0.5,i); nuns+=uns[i]; pr[i]=par("prio",1)?sc("prio",2,i):0; s->objects()[i]->setPriority(pr[i]); ((OB*)s->objects()[i])->pref=par("pref",0)?sc("pref",3,i)-1:-1; if(uns[i]&&pr[i]<best)best=pr[i]; if(par("est",0))((OB*)s->objects()[i])->ue=sdr("est",1./64,8,i);
    upn[i]=dnn[i]=0; upt[i]=dnt[i]=0; if(par("hist",0)){ upn[i]=sc("un",2,i)*par("hist",0); dnn[i]=sc("dn",2,i)*par("hist",0); if(upn[i])upt[i]=sdr("ut",0,8,i); if(dnn[i])dnt[i]=sdr("dt",0,8,i); } c->pseudoCosts_.upNumber()[i]=upn[i]; c->pseudoCosts_.downNumber()[i]=dnn[i]; c->pseudoCosts_.upTotalChange()[i]=upt[i]; c->pseudoCosts_.downTotalChange()[i]=dnt[i]; }
  for(int i=0;i<n;i++)for(int w=0;w<2;w++){ g_done[i][w]=0; g_st[i][w]=-1; g_ob[i][w]=0; }
  OsiBranchingInformation info(s,true,false); info.objectiveValue_=1; info.cutoff_=g_cut=par("cut",1)?sd("cut"):1e50; if(par("cut",1))sym_assume(g_cut>1); info.depth_=depth; info.timeRemaining_=1e9; info.lower_=s->cl.data(); info.upper_=s->cu.data(); info.solution_=s->x.data(); info.solver_=s; info.numberColumns_=n;
  int r=c->setupList(&info,true); if(ninf){ A(r==-1,"a node with an object that cannot be satisfied is infeasible"); sym_reach("infeasible"); return; } A(r==nuns,"the number of unsatisfied objects is returned");
  int nl=c->numberOnList(); A(nl<=nuns,"only unsatisfied objects are candidates"); int nbest=0; for(int i=0;i<n;i++)if(uns[i]&&pr[i]==best)nbest++; int mx=strong>root?strong:root; if(mx)A(nl==(nbest<mx?nbest:mx),"the candidates are as many objects of the best priority as strong branching may consider"); for(int k=0;k<nl;k++){ int o=c->candidates()[k]; A(o>=0&&o<n&&uns[o],"a candidate is unsatisfied"); if(o<0||o>=n)return; A(pr[o]==best,"candidates are of the best priority"); for(int q=0;q<k;q++)A(c->candidates()[q]!=o,"a candidate is listed once"); }
  if(par("list",0)){ sym_reach("list"); return; }
  // the outcome of each branch is unknown
  for(int i=0;i<n;i++)if(uns[i]&&strong+root)for(int w=0;w<2;w++){ g_st[i][w]=par("sts",0)?g_codes[sc("st",4,i,w)]:sc("st",2,i,w); g_ob[i][w]=sdr("v",1,16,i,w); if(g_st[i][w]==1)sym_assume(g_ob[i][w]>=2); }
  int fix=par("fix",0); int rc=c->chooseVariable(s,&info,fix); A(g_hot==0,"the hot start is unmarked"); A(rc>=-1&&rc<=4,"return code");
  auto bad=[&](int i,int w){ if(!g_done[i][w])return 0; if(g_st[i][w]==1)return 1; if(g_st[i][w]==0)return (int)(g_ob[i][w]>=g_cut); return 0; };
  if(!nuns){ A(rc==1,"no candidate when all are satisfied"); sym_reach("satisfied"); return; }
  int both=0; for(int i=0;i<n;i++)both=sym_or(both,sym_and(bad(i,0),bad(i,1))); A(sym_implies(rc==-1,both),"a node is infeasible only if both branches of an object are"); A(rc!=1,"a branching candidate is given while objects are unsatisfied");
  int bo=c->bestObjectIndex(); if(rc==0||rc==2||rc==3){ A(bo>=0&&bo<n&&uns[bo],"the object chosen is unsatisfied"); if(bo<0||bo>=n)return; A(pr[bo]==best,"the object chosen is of the best priority"); int w=c->bestWhichWay(); A(w==0||w==1||(strong+root==0&&w==-1),"the way chosen is one of the branches"); }
  int fo=c->firstForcedObjectIndex(); if(rc>=2){ A(fo>=0&&fo<n,"a forced object is given"); if(fo<0||fo>=n)return; A(bad(fo,1-c->firstForcedWhichWay()),"a branch is forced only if the other one is infeasible"); } else if(rc==0){ for(int i=0;i<n;i++)for(int w=0;w<2;w++)A(sym_not(bad(i,w)),"an infeasible branch is reported"); }
  for(int i=0;i<n;i++){ int lo=s->cl[i]==g_l[i], up=s->cu[i]==g_u[i]; if(!fix||rc==-1){ A(sym_and(lo,up),"the bounds of the node are restored"); } else { A(sym_or(lo,bad(i,0)),"a lower bound changes only if the down branch is infeasible"); A(sym_or(up,bad(i,1)),"an upper bound changes only if the up branch is infeasible"); A(sym_or(lo,s->cl[i]==g_bv[i]+1),"a changed bound is that of the branch"); A(sym_or(up,s->cu[i]==g_bv[i]),"a changed bound is that of the branch"); } }
  int ndone=0; for(int i=0;i<n;i++){ A(g_done[i][0]==g_done[i][1]&&g_done[i][0]<=1,"each candidate is solved once in each direction"); if(g_done[i][0])ndone++; A(!g_done[i][0]||(uns[i]&&pr[i]==best),"only candidates are tried"); } int lim=depth?strong:mx; A(ndone<=lim,"no more candidates are tried than asked for");
  for(int i=0;i<n;i++){ for(int w=0;w<2;w++){ int n0=w?upn[i]:dnn[i]; double t0=w?upt[i]:dnt[i]; int n1=w?c->pseudoCosts_.upNumber()[i]:c->pseudoCosts_.downNumber()[i]; double t1=w?c->pseudoCosts_.upTotalChange()[i]:c->pseudoCosts_.downTotalChange()[i]; if(g_done[i][w]&&g_st[i][w]==4)continue; /* Osi counts a failed solve as infeasible */ if(!g_done[i][w]||!par("trust",1)||g_st[i][w]>1){ A(n1==n0&&t1==t0,"pseudo-costs only change with a branch that was decided"); } else { A(n1==n0+1,"a decided branch is counted once"); double e=g_st[i][w]==1?(g_cut<1e50?2*(g_cut-1):2.):g_ob[i][w]-1; if(g_st[i][w]==0){ int cutoff=g_ob[i][w]>=g_cut; A(sym_implies(sym_not(cutoff),sym_near(t1,t0+e/0.5,1e-6)),"the pseudo-cost is the change of the branch"); A(sym_implies(cutoff,sym_near(t1,t0+2*(g_cut-1)/0.5,1e-6)),"the pseudo-cost of a branch above the cutoff"); } else A(sym_near(t1,t0+e/0.5,1e-6),"the pseudo-cost of an infeasible branch"); } } }
  sym_reach("choose");
}
// pseudo-costs after a branch of the tree was solved
CASE(update){
  F.prepare(); F.opti("bb_log_level",0); int n=2; SLP*s=new SLP; s->dims(n,0); std::vector<OsiObject*> ob; for(int i=0;i<n;i++)ob.push_back(new OB(i)); s->addObjects(n,ob.data()); CbcModel*m=new CbcModel; sym_snapshot();
  BonChooseVariable c0(*F.b,s); c0.setCbcModel(m); BonChooseVariable*c=par("copy",0)?(BonChooseVariable*)c0.clone():&c0; double t[2][2]; int k[2][2]; for(int i=0;i<n;i++){ c->pseudoCosts_.upTotalChange()[i]=t[i][1]=sdr("ut",0,8,i); c->pseudoCosts_.downTotalChange()[i]=t[i][0]=sdr("dt",0,8,i); c->pseudoCosts_.upNumber()[i]=k[i][1]=si("un",0,9,i); c->pseudoCosts_.downNumber()[i]=k[i][0]=si("dn",0,9,i); }
  int i=sc("which",2),w=sc("way",2); double ch=sdr("change",0,8),dv=sdr("dist",1./64,1); int st=sc("st",2)*2; c->updateInformation(i,w,ch,dv,st);
  for(int j=0;j<n;j++)for(int q=0;q<2;q++){ double tt=q?c->pseudoCosts_.upTotalChange()[j]:c->pseudoCosts_.downTotalChange()[j]; int kk=q?c->pseudoCosts_.upNumber()[j]:c->pseudoCosts_.downNumber()[j]; if(j==i&&q==w){ A(kk==k[j][q]+1,"the branch is counted once"); A(sym_near((tt-t[j][q])*dv,ch,1e-6),"the pseudo-cost grows by the change per unit"); } else A(sym_and(kk==k[j][q],tt==t[j][q]),"other pseudo-costs are unchanged"); } sym_reach("update");
}
