// The MILP solver wrapper of the decomposition methods: what it tells the MILP solver and what it passes on.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcStrategy.hpp"
#include "BonSubMipSolver.hpp"
#undef private
#undef protected
#include "OsiClpSolverInterface.hpp"
#include "ifstubs.hpp"
#include "BonCbc.hpp"
using namespace Bonmin;
static IF F; static const int N=3; static double g_cutoff,g_low,g_best,g_x[3]; static int g_n,g_opt,g_sol,g_good,g_run;
bool CbcModel::isProvenOptimal()const{ return g_opt&&g_sol; } bool CbcModel::isProvenInfeasible()const{ return g_opt&&!g_sol; } double CbcModel::getBestPossibleObjValue()const{ return g_low; }
static double g_set; void CbcModel::setCutoff(double v){ g_set=v; }
void CbcModel::branchAndBound(int){ int k=g_run++; A(g_set==g_cutoff,"the MILP is solved for solutions better than the cutoff"); A(intParam_[CbcMaxNumSol]==1||!g_good,"a good solution is looked for"); A(intParam_[CbcMaxNumSol]>1000||g_good,"the MILP is solved to optimality"); A(dblParam_[CbcMaximumSeconds]==77,"the time left is passed on"); A(g_good||dblParam_[CbcAllowableFractionGap]==0.125,"the gap is passed on");
  A(solver()->getNumCols()==N&&solver()->getNumRows()==2,"the MILP is the one set"); A(solver()->isInteger(0)&&!solver()->isInteger(1),"its integer variables are those of the LP");
  g_opt=sc("opt",2,k); g_sol=sc("sol",3,k); g_low=sdr("low",-64,64,k); if(g_sol){ bestSolution_=new double[N]; for(int i=0;i<N;i++)bestSolution_[i]=g_x[i]=sdr("x",-64,64,k,i); } numberSolutions_=g_sol; numberNodes_=5; numberIterations_=7; }
CASE(mip){
  StubMINLP*t=new StubMINLP(2,1); t->dense(); t->denseh(); t->vt[0]=TMINLP::INTEGER; F.prepare(); F.b->options()->SetStringValue("oa_decomposition.milp_strategy",par("good",0)?"find_good_sol":"solve_to_optimality"); F.b->options()->SetStringValue("oa_decomposition.milp_solver",par("cuts",0)?"Cbc_Par":"Cbc_D"); F.b->options()->SetNumericValue("oa_decomposition.allowable_fraction_gap",0.125); F.make(t); g_good=par("good",0); BonminSetup*B=new BonminSetup(); B->initialize(*F.si,true);
  OsiClpSolverInterface*lp=new OsiClpSolverInterface; lp->messageHandler()->setLogLevel(0); CoinPackedVector e; for(int i=0;i<N;i++)lp->addCol(e,0,4,i); lp->setInteger(0); for(int r=0;r<2;r++){ CoinPackedVector v; v.insert(r,1.); v.insert(2,1.); lp->addRow(v,-10.,10.); } lp->initialSolve(); sym_snapshot();
  SubMipSolver o(*B,"oa_decomposition."); SubMipSolver c(o); SubMipSolver*s=par("copy",0)?&c:&o; s->setLpSolver(lp); A(s->solver()==lp,"the LP is the one set"); A(s->getLastSolution()==NULL,"there is no solution yet");
  for(int k=0;k<2;k++){ g_cutoff=sdr("cutoff",-64,64,k); g_n=0; s->solve(g_cutoff,0,77.); A(g_run==k+1,"the MILP is solved once"); A(s->lowBound()==g_low,"the bound is the MILP solver's"); A(s->optimal()==(g_opt!=0),"the MILP counts as solved if and only if the solver says so"); const double*x=s->getLastSolution(); A((x!=NULL)==(g_sol!=0),"there is a solution if and only if the solver found one"); if(x)for(int i=0;i<N;i++)A(x[i]==g_x[i],"the solution is the MILP solver's"); A(s->nodeCount()==5&&s->iterationCount()==7,"counts are passed on"); }
  s->setLpSolver(lp); A(s->getLastSolution()==NULL&&!s->optimal(),"a new MILP starts without results"); delete B; sym_reach("mip");
}
