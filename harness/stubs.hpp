// Stand-ins: a user problem (TMINLP) whose data are whatever the harness puts
// in its arrays (usually symbolic), and which records how it was called.
#ifndef STUBS_HPP
#define STUBS_HPP
#include "common.hpp"
#include "BonTMINLP.hpp"
#include "BonTMINLP2TNLP.hpp"
using Ipopt::Index; using Ipopt::Number; using Ipopt::SmartPtr;
using Bonmin::TMINLP;
typedef std::vector<double> DV; typedef std::vector<int> IV;
struct StubMINLP : public TMINLP {
  int n,m; Ipopt::TNLP::IndexStyleEnum style;
  DV xl,xu,gl,gu,x0; std::vector<VariableType> vt; std::vector<Ipopt::TNLP::LinearityType> clin,vlin;
  IV jr,jc; // sparsity of the jacobian, 0-based
  IV hr,hc; // lower triangle of the hessian, 0-based
  DV fq; double f; DV gradf,g,jac; DV hess; // values returned wherever the point is
  bool retf,retgf,retg,retj,reth; bool linobj; TMINLP::SosInfo*sos; TMINLP::BranchingInfo*br;
  // quadratic mode: values are computed from coefficients at the point asked for
  bool quad; double fc; DV fl; struct Q{int i,j;double v;}; std::vector<Q> fQ; DV gc; std::vector<DV> gL; std::vector<std::vector<Q> > gQ;
  // recording
  mutable int nf,ngf,ng,nj,nh,ngi,nggi; DV lastx; double last_of; DV last_lambda; int last_newx;
  int last_m; int fin; SolverReturn fin_status; DV fin_x; double fin_obj; bool fin_hasx;
  DV seenlast;
  double ub_f; bool hasub;
  StubMINLP(int n_,int m_):n(n_),m(m_),style(Ipopt::TNLP::C_STYLE),xl(n_,0),xu(n_,1),gl(m_,-1e300),gu(m_,0),x0(n_,0),vt(n_,CONTINUOUS),clin(m_,Ipopt::TNLP::NON_LINEAR),vlin(n_,Ipopt::TNLP::NON_LINEAR),f(0),gradf(n_,0),g(m_,0),retf(true),retgf(true),retg(true),retj(true),reth(true),linobj(false),sos(0),br(0),quad(false),fc(0),fl(n_,0),gc(m_,0),gL(m_,DV(n_,0)),gQ(m_),nf(0),ngf(0),ng(0),nj(0),nh(0),ngi(0),nggi(0),last_of(0),last_newx(-1),last_m(-1),fin(0),fin_status(MINLP_ERROR),fin_obj(0),fin_hasx(false),ub_f(0),hasub(false){ }
  void dense(){ jr.clear();jc.clear(); for(int i=0;i<m;i++)for(int j=0;j<n;j++){jr.push_back(i);jc.push_back(j);} jac.assign(jr.size(),0.); }
  void denseh(){ hr.clear();hc.clear(); for(int i=0;i<n;i++)for(int j=0;j<=i;j++){hr.push_back(i);hc.push_back(j);} hess.assign(hr.size(),0.); }
  int off()const{return style==Ipopt::TNLP::FORTRAN_STYLE?1:0;}
  bool get_nlp_info(Index&N,Index&M,Index&nj_,Index&nh_,Ipopt::TNLP::IndexStyleEnum&s){N=n;M=m;nj_=(int)jr.size();nh_=(int)hr.size();s=style;return true;}
  bool get_variables_types(Index,VariableType*v){for(int i=0;i<n;i++)v[i]=vt[i];return true;}
  bool get_variables_linearity(Index,Ipopt::TNLP::LinearityType*v){for(int i=0;i<n;i++)v[i]=vlin[i];return true;}
  bool get_constraints_linearity(Index,Ipopt::TNLP::LinearityType*c){for(int i=0;i<m;i++)c[i]=clin[i];return true;}
  bool get_bounds_info(Index,Number*l,Number*u,Index,Number*a,Number*b){for(int i=0;i<n;i++){l[i]=xl[i];u[i]=xu[i];}for(int i=0;i<m;i++){a[i]=gl[i];b[i]=gu[i];}return true;}
  bool get_starting_point(Index,bool ix,Number*x,bool iz,Number*,Number*,Index,bool il,Number*){ if(ix)for(int i=0;i<n;i++)x[i]=x0[i]; return !iz&&!il; }
  double qf(const double*x)const{double v=fc;for(int j=0;j<n;j++)v+=fl[j]*x[j];for(size_t k=0;k<fQ.size();k++)v+=fQ[k].v*x[fQ[k].i]*x[fQ[k].j];return v;}
  double qg(int i,const double*x)const{double v=gc[i];for(int j=0;j<n;j++)v+=gL[i][j]*x[j];for(size_t k=0;k<gQ[i].size();k++)v+=gQ[i][k].v*x[gQ[i][k].i]*x[gQ[i][k].j];return v;}
  double qdf(int j,const double*x)const{double v=fl[j];for(size_t k=0;k<fQ.size();k++){if(fQ[k].i==j)v+=fQ[k].v*x[fQ[k].j];if(fQ[k].j==j)v+=fQ[k].v*x[fQ[k].i];}return v;}
  double qdg(int i,int j,const double*x)const{double v=gL[i][j];for(size_t k=0;k<gQ[i].size();k++){const Q&q=gQ[i][k];if(q.i==j)v+=q.v*x[q.j];if(q.j==j)v+=q.v*x[q.i];}return v;}
  void rec(const Number*x,bool nx){ if(x)lastx.assign(x,x+n); last_newx=nx; }
  bool eval_f(Index,const Number*x,bool nx,Number&v){nf++;rec(x,nx);v=quad?qf(x):f;return retf;}
  bool eval_grad_f(Index,const Number*x,bool nx,Number*v){ngf++;rec(x,nx);for(int i=0;i<n;i++)v[i]=quad?qdf(i,x):gradf[i];return retgf;}
  bool eval_g(Index,const Number*x,bool nx,Index,Number*v){ng++;rec(x,nx);for(int i=0;i<m;i++)v[i]=quad?qg(i,x):g[i];return retg;}
  bool eval_jac_g(Index,const Number*x,bool nx,Index m_,Index nele,Index*r,Index*c,Number*v){nj++; last_m=m_; if(v){rec(x,nx);for(size_t k=0;k<jr.size();k++)v[k]=quad?qdg(jr[k],jc[k],x):jac[k];}else{for(size_t k=0;k<jr.size();k++){r[k]=jr[k]+off();c[k]=jc[k]+off();}}return retj;}
  bool eval_h(Index,const Number*x,bool nx,Number of,Index m_,const Number*lam,bool,Index,Index*r,Index*c,Number*v){nh++; last_m=m_; if(v){ rec(x,nx);last_of=of; last_lambda.assign(lam,lam+m);
      for(size_t k=0;k<hr.size();k++){ if(!quad){v[k]=hess[k]*of; for(int i=0;i<m;i++)v[k]+=0; continue;} double s=0; auto add=[&](const std::vector<Q>&q,double w){for(size_t t=0;t<q.size();t++){int a=std::max(q[t].i,q[t].j),b=std::min(q[t].i,q[t].j); if(a==hr[k]&&b==hc[k])s+=w*q[t].v*(a==b?2:1);}}; add(fQ,of); for(int i=0;i<m;i++)add(gQ[i],lam[i]); v[k]=s; } }
    else for(size_t k=0;k<hr.size();k++){r[k]=hr[k]+off();c[k]=hc[k]+off();} return reth;}
  bool eval_gi(Index,const Number*x,bool nx,Index i,Number&v){ngi++;rec(x,nx);v=quad?qg(i,x):g[i];return retg;}
  bool eval_grad_gi(Index,const Number*x,bool nx,Index i,Index&ne,Index*c,Number*v){nggi++; int k=0; for(size_t t=0;t<jr.size();t++)if(jr[t]==i){ if(v)v[k]=quad?qdg(i,jc[t],x):jac[t]; if(c) c[k]=jc[t]+off(); k++; } ne=k; if(v)rec(x,nx); return retj;}
  void finalize_solution(TMINLP::SolverReturn s,Index N,const Number*x,Number o){fin++;fin_status=s;fin_obj=o;fin_hasx=x!=0; if(x)fin_x.assign(x,x+N);}
  const BranchingInfo*branchingInfo()const{return br;} const SosInfo*sosConstraints()const{return sos;}
  bool hasUpperBoundingObjective(){return hasub;} bool eval_upper_bound_f(Index,const Number*,Number&v){v=ub_f;return true;}
  bool hasLinearObjective(){return linobj;}
};
static inline void fill(DV&v,const char*b,double lo=-8,double hi=8){ for(size_t i=0;i<v.size();i++)v[i]=sym_double(nm(b,(int)i),lo,hi); }
#endif
