// Node trees (CbcDiver, CbcProbedDiver, CbcDfsDiver): no open node is lost or returned twice.
// The heap of Cbc they are built on is an encoded stand-in.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcTree.hpp"
#include "CbcNode.hpp"
#include "CbcNodeInfo.hpp"
#include "CbcFullNodeInfo.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "BonDiver.hpp"
using namespace Bonmin;
static int g_pick; static std::set<CbcNode*> g_heap;
CbcTree::CbcTree(){} CbcTree::CbcTree(const CbcTree&o):nodes_(o.nodes_),comparison_(o.comparison_){} CbcTree&CbcTree::operator=(const CbcTree&o){ nodes_=o.nodes_; comparison_=o.comparison_; return *this; } CbcTree::~CbcTree(){} CbcTree*CbcTree::clone()const{return new CbcTree(*this);}
void CbcTree::setComparison(CbcCompareBase&c){ comparison_.test_=&c; rebuild(); }
void CbcTree::rebuild(){}
CbcNode*CbcTree::top()const{ return nodes_.front(); }
void CbcTree::push(CbcNode*x){ A(x!=0,"a node is put into the tree"); A(std::find(nodes_.begin(),nodes_.end(),x)==nodes_.end(),"a node is not put twice into the tree"); if(nodes_.size())comparison_.compareNodes(x,nodes_[0]); nodes_.push_back(x); }
void CbcTree::pop(){ nodes_.erase(nodes_.begin()); }
CbcNode*CbcTree::bestNode(double){ if(nodes_.empty())return 0; size_t i=g_pick?nodes_.size()-1:0; CbcNode*r=nodes_[i]; nodes_.erase(nodes_.begin()+i); return r; }
bool CbcTree::empty(){ return nodes_.empty(); }
double CbcTree::getBestPossibleObjective(){ double b=1e100; for(size_t i=0;i<nodes_.size();i++)if(nodes_[i]->objectiveValue()<b)b=nodes_[i]->objectiveValue(); return b; }
static std::vector<CbcNode*> g_pruned;
void CbcTree::cleanTree(CbcModel*,double cutoff,double&best){ std::vector<CbcNode*> keep; int n=size(); best=1e100; for(int i=0;i<n;i++){ CbcNode*x=top(); pop(); if(x->objectiveValue()>=cutoff)g_pruned.push_back(x); else { keep.push_back(x); if(x->objectiveValue()<best)best=x->objectiveValue(); } } for(size_t i=0;i<keep.size();i++)push(keep[i]); }
struct Br: public OsiBranchingObject{ Br(){ numberBranches_=2; branchIndex_=0; } OsiBranchingObject*clone()const{return new Br(*this);} double branch(OsiSolverInterface*){branchIndex_++;return 0;} void next(){branchIndex_++;} };
struct Cmp: public CbcCompareBase{ int how; Cmp(int h):how(h){} CbcCompareBase*clone()const{return new Cmp(how);} bool test(CbcNode*x,CbcNode*y){ return how?x->objectiveValue()>y->objectiveValue():x->depth()<y->depth(); } };
static int g_k=0; static CbcNode*mknode(double lo,double cutoff,int depth){ CbcNode*n=new CbcNode; double v=sd("obj",g_k); sym_assume(sym_and(v>=lo,v<cutoff)); n->setObjectiveValue(v); double g=sd("guess",g_k); sym_assume(g>=v); n->setGuessedObjectiveValue(g); n->setDepth(depth); n->setBranchingObject(new Br); CbcFullNodeInfo*ni=new CbcFullNodeInfo; ni->setNodeNumber(g_k+1); n->nodeInfo_=ni; g_k++; return n; }
static std::vector<CbcNode*> g_open; static bool take(CbcNode*n){ auto i=std::find(g_open.begin(),g_open.end(),n); if(i==g_open.end())return false; g_open.erase(i); return true; }
static IF F;
// the protocol Cbc follows: take a node, put it back while it has branches left, put in the child; after a solution the tree is cleaned
CASE(drive){
  F.prepare(); int kind=par("kind",0); F.opts("stop_diving_on_cutoff",par("stop",0)?"yes":"no"); F.opti("max_backtracks_in_dive",par("back",5)); if(par("depth",-1)>=0)F.opti("max_dive_depth",par("depth",0)); CbcModel*model=new CbcModel; sym_snapshot();
  CbcTree*t=0; DiverCompare dc; Cmp c0(0),c1(1); if(kind==0){ CbcDiver d; d.initialize(*F.b); t=d.clone(); } else if(kind==1){ CbcProbedDiver d; d.initialize(*F.b); t=d.clone(); } else { CbcDfsDiver d; d.initialize(*F.b); t=d.clone(); }
  t->setComparison(par("cmp",0)?(CbcCompareBase&)c1:(CbcCompareBase&)c0); CbcDfsDiver*df=dynamic_cast<CbcDfsDiver*>(t); if(kind==3){ dc.setComparisonDive(c0); dc.setComparisonBound(c1); dc.setDiver(df); dc.setNumberSolToStopDive(1); dc.setNumberNodesToLimitTreeSize(1); t->setComparison(dc); }
  g_pick=sc("pick",2); double cutoff=100; CbcNode*root=mknode(-8,cutoff,0); t->push(root); g_open.push_back(root); int steps=par("steps",3); int nsol=0;
  for(int k=0;k<steps&&!t->empty();k++){
    int ev=k?sc("ev",kind==3?3:2,k):0; if(ev==1){ double c=sd("cut",k); sym_assume(c<cutoff); cutoff=c; nsol++; model->numberSolutions_=nsol; bool redo=kind==3?dc.newSolution(model):false; if(redo)t->setComparison(dc); double best=0; g_pruned.clear(); t->cleanTree(model,cutoff,best); for(size_t i=0;i<g_pruned.size();i++)A(take(g_pruned[i]),"only open nodes are pruned"); for(size_t i=0;i<g_open.size();i++)A(g_open[i]->objectiveValue()<cutoff,"nodes above the cutoff are pruned"); if(t->empty())break; } else if(ev==2){ if(dc.every1000Nodes(model,2))t->setComparison(dc); }
    A(t->empty()==g_open.empty(),"the tree is empty exactly when no node is open"); if(t->empty())break; double b=t->getBestPossibleObjective(); int hit=0; for(size_t i=0;i<g_open.size();i++){ A(b<=g_open[i]->objectiveValue(),"the bound is not above an open node's"); hit=sym_or(hit,b==g_open[i]->objectiveValue()); } A(hit,"the bound is that of an open node");
    CbcNode*n=t->bestNode(cutoff); A(n!=0,"a node is returned while some are open"); if(!n)return; A(take(n),"the node returned is open"); if(n->objectiveValue()>=cutoff)continue;
    Br*br=(Br*)n->branchingObject(); br->next(); if(br->numberBranchesLeft()>0){ t->push(n); g_open.push_back(n); } if(sc("child",2,k)){ CbcNode*c=mknode(n->objectiveValue(),cutoff,n->depth()+1); t->push(c); g_open.push_back(c); } }
  for(int k=0;k<12&&!t->empty();k++){ CbcNode*n=t->bestNode(cutoff); A(n!=0,"a node is returned while some are open"); if(!n)return; A(take(n),"the node returned is open, and is returned once"); } A(t->empty(),"all nodes can be taken out"); for(size_t i=0;i<g_open.size();i++)A(g_open[i]->objectiveValue()>=cutoff,"no open node is lost"); sym_reach("drive");
}
