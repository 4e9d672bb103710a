// The Ipopt adapter (IpoptSolver): outcome mapping, problems with all variables fixed, warm starts.
#include "ifstubs.hpp"
#include "BonIpoptSolver.hpp"
#include "IpIpoptApplication.hpp"
using namespace Bonmin;
static int N=2,M=2;
static std::vector<int> g_calls; // 0 optimize, 1 reoptimize
static Ipopt::ApplicationReturnStatus g_ret; static DV ax,az,ag,al; static double aobj; static Ipopt::SolverReturn g_sr;
struct StubApp: public Ipopt::IpoptApplication{
  StubApp(const SmartPtr<Ipopt::RegisteredOptions>&r,const SmartPtr<Ipopt::OptionsList>&o,const SmartPtr<Ipopt::Journalist>&j):Ipopt::IpoptApplication(r,o,j){}
  Ipopt::ApplicationReturnStatus go(const SmartPtr<Ipopt::TNLP>&p,int w){ g_calls.push_back(w); if(!ax.empty())p->finalize_solution(g_sr,N,&ax[0],&az[0],&az[N],M,M?&ag[0]:0,M?&al[0]:0,aobj,NULL,NULL); return g_ret; }
  Ipopt::ApplicationReturnStatus OptimizeTNLP(const SmartPtr<Ipopt::TNLP>&p){return go(p,0);} Ipopt::ApplicationReturnStatus ReOptimizeTNLP(const SmartPtr<Ipopt::TNLP>&p){return go(p,1);}
};
static IF F;
// the application object of the adapter is given the stand-in's virtual functions
static SmartPtr<IpoptSolver> solver(){ static SmartPtr<StubApp> s=new StubApp(Ipopt::GetRawPtr(F.b->roptions()),F.b->options(),Ipopt::GetRawPtr(F.b->journalist())); SmartPtr<IpoptSolver> r=new IpoptSolver(F.b->roptions(),F.b->options(),F.b->journalist(),"bonmin."); *(void**)(&r->getIpoptApp())=*(void**)Ipopt::GetRawPtr(s); return r; }
static const Ipopt::ApplicationReturnStatus g_all[]={Ipopt::Solve_Succeeded,Ipopt::Solved_To_Acceptable_Level,Ipopt::Infeasible_Problem_Detected,Ipopt::Search_Direction_Becomes_Too_Small,Ipopt::Diverging_Iterates,Ipopt::User_Requested_Stop,Ipopt::Feasible_Point_Found,Ipopt::Maximum_Iterations_Exceeded,Ipopt::Restoration_Failed,Ipopt::Error_In_Step_Computation,Ipopt::Maximum_CpuTime_Exceeded,Ipopt::Not_Enough_Degrees_Of_Freedom,Ipopt::Invalid_Problem_Definition,Ipopt::Invalid_Option,Ipopt::Invalid_Number_Detected,Ipopt::Unrecoverable_Exception,Ipopt::NonIpopt_Exception_Thrown,Ipopt::Insufficient_Memory,Ipopt::Internal_Error};
static TNLPSolver::ReturnStatus want(Ipopt::ApplicationReturnStatus s){ switch(s){ case Ipopt::Solve_Succeeded: case Ipopt::Feasible_Point_Found:return TNLPSolver::solvedOptimal; case Ipopt::Solved_To_Acceptable_Level:return TNLPSolver::solvedOptimalTol; case Ipopt::Infeasible_Problem_Detected:return TNLPSolver::provenInfeasible; case Ipopt::Diverging_Iterates:return TNLPSolver::unbounded; case Ipopt::Search_Direction_Becomes_Too_Small:return TNLPSolver::doesNotConverge; case Ipopt::User_Requested_Stop: case Ipopt::Maximum_Iterations_Exceeded: case Ipopt::Restoration_Failed:return TNLPSolver::iterationLimit; case Ipopt::Maximum_CpuTime_Exceeded:return TNLPSolver::timeLimit; case Ipopt::Error_In_Step_Computation: case Ipopt::Unrecoverable_Exception: case Ipopt::Insufficient_Memory:return TNLPSolver::computationError; case Ipopt::Not_Enough_Degrees_Of_Freedom:return TNLPSolver::notEnoughFreedom; case Ipopt::Invalid_Problem_Definition:return TNLPSolver::illDefinedProblem; case Ipopt::Invalid_Option: case Ipopt::Invalid_Number_Detected:return TNLPSolver::illegalOption; case Ipopt::NonIpopt_Exception_Thrown:return TNLPSolver::externalException; default:return TNLPSolver::exception; } }
// outcomes over a sequence of solves with symbolic bounds: some with free variables, some with all fixed
CASE(outcome){ sym_grid(30);
  F.prepare(); SmartPtr<IpoptSolver> s=solver(); sym_snapshot(); M=par("m",2); StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); SmartPtr<TMINLP> h(t); for(int i=0;i<M;i++){ int k=sc("inf",par("ninf",3),i); t->gl[i]=k==1?-1e300:sd("gl",i); t->gu[i]=k==2?1e300:sd("gu",i); }
  SmartPtr<TMINLP2TNLP> p=new TMINLP2TNLP(h); int steps=par("steps",2); int nopt=0; ax.assign(N,0);az.assign(2*N,0);ag.assign(M,0);al.assign(M,0);
  for(int k=0;k<steps;k++){ double l[2],u[2]; for(int i=0;i<N;i++){ l[i]=sd("l",k,i); int w=par("nw",3)==2?2*sc("w",2,10*k+i):sc("w",3,10*k+i); u[i]=w==0?l[i]:sd("u",k,i); if(w==1)sym_assume(sym_and(u[i]>=l[i],u[i]-l[i]<=1e-6)); if(w==2)sym_assume(u[i]-l[i]>=1e-3); } p->SetVariablesBounds(N,l,u); bool fixed=(u[0]-l[0]<1e-4)&&(u[1]-l[1]<1e-4);
    t->f=sd("f",k); for(int i=0;i<M;i++)t->g[i]=sd("g",k,i); for(int i=0;i<N;i++)ax[i]=sd("ax",k,i); aobj=sd("aobj",k); g_ret=g_all[fixed?0:sc("st",par("nst",19),k)]; g_sr=g_ret==Ipopt::Solve_Succeeded?Ipopt::SUCCESS:Ipopt::INTERNAL_ERROR; for(int i=0;i<M;i++){ag[i]=sd("ag",k,i);al[i]=sd("al",k,i);} for(int i=0;i<2*N;i++)az[i]=sd("az",k,i);
    size_t nc=g_calls.size(); bool re=sc("re",2,k); if(sc("ws",2,k))s->enableWarmStart(); else s->disableWarmStart(); SmartPtr<Ipopt::TNLP> q=Ipopt::GetRawPtr(p); TNLPSolver::ReturnStatus r=re?s->ReOptimizeTNLP(q):s->OptimizeTNLP(q);
    if(!fixed){ A(g_calls.size()==nc+1,"Ipopt is called once"); if(g_calls.size()!=nc+1)return; if(nopt==0)A(g_calls.back()==0,"the first call of Ipopt is not a re-optimisation"); nopt++; A(r==want(g_ret),"the outcome is the one Ipopt reported"); for(int i=0;i<N;i++)A(same(p->x_sol()[i],ax[i]),"the point is Ipopt's"); }
    else { A(g_calls.size()==nc,"Ipopt is not called when every variable is fixed"); bool feas=true,inf=false; for(int i=0;i<M;i++){ if(t->g[i]<t->gl[i]-1e-6||t->g[i]>t->gu[i]+1e-6)inf=true; if(t->g[i]<t->gl[i]||t->g[i]>t->gu[i])feas=false; }
      if(inf)A(r==TNLPSolver::provenInfeasible&&p->optimization_status()==Ipopt::LOCAL_INFEASIBILITY,"a fixed point which violates a constraint is infeasible"); else if(feas)A(r==TNLPSolver::solvedOptimal&&p->optimization_status()==Ipopt::SUCCESS,"a fixed point which satisfies all constraints is optimal"); else A(r==TNLPSolver::solvedOptimal||r==TNLPSolver::provenInfeasible,"fixed point at the tolerance");
      A(same(p->obj_value(),t->f),"its objective is the user's at the fixed point"); for(int i=0;i<N;i++){ A(p->x_sol()[i]>=l[i]-1e-9&&p->x_sol()[i]<=u[i]+1e-9,"the point is within the bounds"); A(same(t->lastx[i],p->x_sol()[i]),"functions are evaluated at the fixed point"); } for(int i=0;i<M;i++)A(same(p->g_sol()[i],t->g[i]),"its constraint values are the user's"); if(r==TNLPSolver::solvedOptimal)for(int i=0;i<2*N+M;i++)A(p->duals_sol()[i]==0,"its multipliers are zero"); A(s->IterationCount()==0&&s->CPUTime()==0,"no iteration is counted"); } }
  sym_reach("outcome");
}
// warm starts: what is stored is the solution, what is set is what was stored
CASE(warm){
  F.prepare(); F.b->options()->SetIntegerValue("print_level",0,true,true); SmartPtr<IpoptSolver> s=solver(); M=par("m",3); StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); SmartPtr<TMINLP> h(t); SmartPtr<TMINLP2TNLP> p=new TMINLP2TNLP(h); SmartPtr<TMINLP2TNLP> p2=p->clone(); sym_snapshot(); int D=2*N+M;
  DV X[3],Z[3]; CoinWarmStart*w[3]={0,0,0}; for(int k=0;k<3;k++){ X[k].resize(N);Z[k].resize(D); for(int i=0;i<N;i++)X[k][i]=(k==2&&i==0&&sc("eqx",2,10*k+i))?X[1][i]:sd("x",k,i); for(int i=0;i<D;i++)Z[k][i]=(k==2&&i<par("eqd",1)&&sc("eqz",2,10*k+i))?Z[1][i]:sd("z",k,i); DV gg(M,0.); p->finalize_solution(Ipopt::SUCCESS,N,&X[k][0],&Z[k][0],&Z[k][N],M,&gg[0],&Z[k][2*N],0.,NULL,NULL); w[k]=s->getWarmStart(p); A(s->warmStartIsValid(w[k]),"the warm start of a solution is valid"); }
  CoinWarmStart*e=s->getEmptyWarmStart(); A(!s->warmStartIsValid(e),"an empty warm start is not valid"); A(!s->warmStartIsValid(0),"no warm start is not valid");
  CoinWarmStart*c=w[1]->clone(); if(sc("diff",2)){ CoinWarmStartDiff*d=w[2]->generateDiff(w[1]); CoinWarmStartDiff*d2=sc("dc",2)?d->clone():d; c->applyDiff(d2); } else { delete c; c=w[2]->clone(); }
  A(s->setWarmStart(c,p2),"the warm start can be set"); DV x(N+1,777.25),zl(N+1,777.25),zu(N+1,777.25),la(M+1,777.25); A(p2->get_starting_point(N,true,&x[0],true,&zl[0],&zu[0],M,true,&la[0]),"start point"); for(int i=0;i<N;i++)A(same(x[i],X[2][i])&&same(zl[i],Z[2][i])&&same(zu[i],Z[2][N+i]),"the start point is the stored solution"); for(int i=0;i<M;i++)A(same(la[i],Z[2][2*N+i]),"the initial multipliers are the stored ones");
  CoinWarmStart*u=s->getUsedWarmStart(p2); A(u!=0,"the warm start in use is available"); IpoptWarmStart*iu=dynamic_cast<IpoptWarmStart*>(u); A(iu&&iu->primalSize()==N&&iu->dualSize()==D,"sizes of the warm start"); if(iu){ for(int i=0;i<N;i++)A(same(iu->primal()[i],X[2][i]),"the warm start in use is the one set"); for(int i=0;i<D;i++)A(same(iu->dual()[i],Z[2][i]),"its multipliers"); }
  IpoptWarmStart*i1=dynamic_cast<IpoptWarmStart*>(w[1]); for(int i=0;i<N;i++)A(same(i1->primal()[i],X[1][i]),"stored warm starts are not changed by later solves"); sym_reach("warm");
}
