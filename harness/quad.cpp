// Problems with quadratic (and linear) cuts: TMINLP2TNLPQuadCuts, QuadRow, TMat, QuadCut.
#include "ifstubs.hpp"
#include "BonTMINLP2Quad.hpp"
#include "BonQuadCut.hpp"
#include "BonQuadRow.hpp"
using namespace Bonmin;
static const int N=3,M=2; static const double TOL=1e-6,G=777.25;
#define EQ(a,b,w) A(sym_near((a),(b),TOL),w)
struct Row{ double lb,ub,c; DV a; DV q; bool lin; std::vector<bool> gs; }; // q: coefficient of x_i x_j, i<=j, in the polynomial
static int qi(int i,int j){ if(i>j)std::swap(i,j); return i*N-i*(i-1)/2+(j-i); }
static double val(const Row&r,const double*x){ double v=r.c; for(int i=0;i<N;i++)v+=r.a[i]*x[i]; for(int i=0;i<N;i++)for(int j=i;j<N;j++)v+=r.q[qi(i,j)]*x[i]*x[j]; return v; }
static double der(const Row&r,int k,const double*x){ double v=r.a[k]; for(int j=0;j<N;j++)v+=r.q[qi(k,j)]*x[j]*(j==k?2:1); return v; }
// linear part: a subset of the variables; quadratic part: one of several patterns
static Row mkcut(int id,bool quad,QuadCut&qc,OsiRowCut&lc){
  Row r; r.a.assign(N,0); r.q.assign(N*(N+1)/2,0); r.c=0; r.gs.assign(N,false); r.lin=!quad; r.lb=sd("lb",id); r.ub=sd("ub",id);
  IV ix; DV el; int ls=sc("ls",par("ls",2),id); if(ls==0){ix={2,0};} else if(ls==1){ix={1};} for(size_t k=0;k<ix.size();k++){ el.push_back(sd("a",id,(int)k)); r.a[ix[k]]=el[k]; r.gs[ix[k]]=true; }
  CoinPackedVector v; for(size_t k=0;k<ix.size();k++)v.insert(ix[k],el[k]);
  if(!quad){ lc.setRow(v); lc.setLb(r.lb); lc.setUb(r.ub); return r; }
  qc.setRow(v); qc.setLb(r.lb); qc.setUb(r.ub); r.c=sd("c",id); qc.c()=r.c;
  int pat=sc("pat",par("pats",4),id); IV ri,ci; MatrixStorageType T=Upper;
  if(pat==0){T=Upper;ri={0,0};ci={0,1};} else if(pat==1){T=Lower;ri={2,1};ci={1,1};} else if(pat==2){T=Full;ri={0,1,2,2};ci={1,0,2,0};} else if(pat==3){T=Upper;ri={1,0,2};ci={2,2,2};} else {T=Full;ri={0,0,0,1,1,1,2,2,2};ci={0,1,2,0,1,2,0,1,2};}
  DV q; for(size_t k=0;k<ri.size();k++){ double w=sd("q",id,(int)k); sym_assume(sym_or(w>=0.0625,w<=-0.0625)); /* the real CoinPackedMatrix drops zeros */ q.push_back(w); r.q[qi(ri[k],ci[k])]+=(T!=Full&&ri[k]!=ci[k])?2*w:w; r.gs[ri[k]]=r.gs[ci[k]]=true; }
  qc.Q()=CoinPackedMatrix(true,&ri[0],&ci[0],&q[0],(int)ri.size()); qc.type()=T; return r;
}
static void check(TMINLP2TNLPQuadCuts&p,StubMINLP*t,const std::vector<Row>&rows,const DV*lobj,double c0,const char*tag){
  int o=t->off(),K=(int)rows.size(),m=M+K; Index n,mm,nj,nh; Ipopt::TNLP::IndexStyleEnum st; A(p.get_nlp_info(n,mm,nj,nh,st)&&n==N&&mm==m&&st==t->style,"size of the problem with its cuts"); if(mm!=m)return;
  DV x(N); for(int i=0;i<N;i++)x[i]=sd(tag,i);
  { DV l(N+1,G),u(N+1,G),a(m+1,G),b(m+1,G); A(p.get_bounds_info(N,&l[0],&u[0],m,&a[0],&b[0]),"bounds"); for(int i=0;i<N;i++)A(same(l[i],t->xl[i])&&same(u[i],t->xu[i]),"variable bounds"); for(int i=0;i<M;i++)A(same(a[i],t->gl[i])&&same(b[i],t->gu[i]),"constraint bounds are the user's"); for(int k=0;k<K;k++)A(same(a[M+k],rows[k].lb)&&same(b[M+k],rows[k].ub),"the bounds of a cut's row are the cut's"); A(l[N]==G&&a[m]==G&&b[m]==G,"bounds stay inside the arrays"); }
  { double v=G; A(p.eval_f(N,&x[0],true,v),"objective"); double e=t->f; if(lobj){e=c0;for(int i=0;i<N;i++)e+=(*lobj)[i]*x[i];} EQ(v,e,"objective"); DV d(N+1,G); A(p.eval_grad_f(N,&x[0],true,&d[0]),"gradient"); for(int i=0;i<N;i++)A(same(d[i],lobj?(*lobj)[i]:t->gradf[i]),"objective gradient"); A(d[N]==G,"gradient in array"); }
  { DV g(m+1,G); A(p.eval_g(N,&x[0],true,m,&g[0]),"constraints"); for(int i=0;i<M;i++)A(same(g[i],t->g[i]),"constraint values are the user's"); for(int k=0;k<K;k++){ EQ(g[M+k],val(rows[k],&x[0]),"the value of a cut's row is the cut's function"); double gi=G; A(p.eval_gi(N,&x[0],true,M+k,gi),"single rows can be evaluated"); EQ(gi,val(rows[k],&x[0]),"single row value"); } A(g[m]==G,"constraints stay inside the array"); }
  { int e=N*M; for(int k=0;k<K;k++)for(int i=0;i<N;i++)e+=rows[k].gs[i]; A(nj==e,"size of the Jacobian"); if(nj!=e)return; IV r(nj+1,-99),c(nj+1,-99); DV v(nj+1,G); A(p.eval_jac_g(N,NULL,false,m,nj,&r[0],&c[0],NULL),"Jacobian structure"); A(p.eval_jac_g(N,&x[0],true,m,nj,NULL,NULL,&v[0]),"Jacobian values"); A(t->last_m==M,"the user sees his own number of constraints"); A(r[nj]==-99&&c[nj]==-99&&v[nj]==G,"Jacobian stays inside the arrays");
    std::vector<DV> J(m,DV(N,0)); for(int k=0;k<nj;k++){ int i=r[k]-o,j=c[k]-o; bool ok=i>=0&&i<m&&j>=0&&j<N; A(ok,"Jacobian indices in range"); if(!ok)return; J[i][j]+=v[k]; }
    for(int i=0;i<M;i++)for(int j=0;j<N;j++)A(same(J[i][j],t->jac[i*N+j]),"Jacobian of the user's constraints"); for(int k=0;k<K;k++)for(int j=0;j<N;j++)EQ(J[M+k][j],der(rows[k],j,&x[0]),"the gradient of a cut's row is the cut's");
    for(int k=0;k<K;k++){ int ne=0; IV cc(N+1,-99); DV vv(N+1,G); A(p.eval_grad_gi(N,&x[0],true,M+k,ne,&cc[0],NULL),"single gradient structure"); A(ne>=0&&ne<=N,"single gradient size"); A(p.eval_grad_gi(N,&x[0],true,M+k,ne,NULL,&vv[0]),"single gradient values"); DV d(N,0); for(int a=0;a<ne;a++){ int j=cc[a]-o; A(j>=0&&j<N,"single gradient index"); if(j<0||j>=N)return; d[j]+=vv[a]; } for(int j=0;j<N;j++)EQ(d[j],der(rows[k],j,&x[0]),"single gradient"); } }
  { IV r(nh+1,-99),c(nh+1,-99); DV v(nh+1,G),lam(m+1); for(int i=0;i<m;i++)lam[i]=sym_double(strdup((std::string(tag)+"lam"+std::to_string(i)).c_str()),-8,8); double of=sym_double(strdup((std::string(tag)+"of").c_str()),-8,8);
    A(p.eval_h(N,NULL,false,0,m,NULL,false,nh,&r[0],&c[0],NULL),"Hessian structure"); A(p.eval_h(N,&x[0],true,of,m,&lam[0],true,nh,NULL,NULL,&v[0]),"Hessian values"); A(r[nh]==-99&&c[nh]==-99&&v[nh]==G,"Hessian stays inside the arrays"); for(int i=0;i<M;i++)A(same(t->last_lambda[i],lam[i]),"multipliers of the user's constraints"); EQ(t->last_of,lobj?0.:of,"weight of the user's objective");
    std::vector<DV> H(N,DV(N,0)); for(int k=0;k<nh;k++){ int i=r[k]-o,j=c[k]-o; bool ok=i>=0&&i<N&&j>=0&&j<=i; A(ok,"Hessian indices in the lower triangle"); if(!ok)return; H[i][j]+=v[k]; }
    for(int i=0;i<N;i++)for(int j=0;j<=i;j++){ double e=0; for(size_t k=0;k<t->hr.size();k++)if(t->hr[k]==i&&t->hc[k]==j)e+=t->hess[k]*(lobj?0.:of); for(int k=0;k<K;k++)e+=lam[M+k]*rows[k].q[qi(i,j)]*(i==j?2:1); EQ(H[i][j],e,"Hessian is the user's plus that of the cuts"); } }
  { std::vector<Ipopt::TNLP::LinearityType> l(m+1,Ipopt::TNLP::LINEAR); A(p.get_constraints_linearity(m,&l[0]),"linearity"); for(int i=0;i<M;i++)A(l[i]==t->clin[i],"linearity of the user's constraints"); for(int k=0;k<K;k++)A(l[M+k]==(rows[k].lin?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR),"linearity of the cuts' rows"); }
  { double os=1; bool ux=false,ug=false; DV xs(N+1,G),gs(m+1,G); p.get_scaling_parameters(os,ux,N,&xs[0],ug,m,&gs[0]); A(gs[m]==G&&xs[N]==G,"scaling stays inside the arrays"); if(ug)for(int k=0;k<K;k++)A(gs[M+k]==1.,"cuts are not scaled"); }
}
CASE(model){
  sym_snapshot(); StubMINLP*t=new StubMINLP(N,M); t->dense(); int hp=sc("hess",3); if(hp==0)t->denseh(); else if(hp==1){ t->hr={0,2};t->hc={0,1};t->hess.assign(2,0.); } t->style=sc("style",2)?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE;
  t->f=sd("f"); fill(t->gradf,"df"); fill(t->g,"g"); fill(t->jac,"J"); fill(t->hess,"h"); fill(t->xl,"xl"); fill(t->xu,"xu"); fill(t->gl,"gl"); fill(t->gu,"gu"); t->clin[1]=Ipopt::TNLP::LINEAR;
  SmartPtr<TMINLP> h(t); SmartPtr<TMINLP2TNLPQuadCuts> p=new TMINLP2TNLPQuadCuts(h); std::vector<Row> rows; DV lo(N); double c0=0; bool hl=false; int steps=par("steps",3); SmartPtr<TMINLP2TNLPQuadCuts> old; std::vector<Row> oldrows; 
  for(int k=0;k<steps;k++){ int op=k<par("adds",1)?sc("op",4,k):sc("op",8,k);
    if(op<4){ // add two cuts, in one of four ways
      QuadCut q1; OsiRowCut l1,l2; QuadCut q2; bool two=par("two",0)&&k==0; Row a=mkcut(10*k,true,q1,l2); Row b=mkcut(10*k+1,false,q2,l1); 
      if(op==0){ const OsiRowCut*pp[2]={&q1,&l1}; p->addCuts(2,pp); rows.push_back(a); rows.push_back(b); }
      else if(op==1){ Cuts cs; cs.insert(q1); static_cast<OsiCuts&>(cs).insert(l1); p->addCuts(cs,true); rows.push_back(a); rows.push_back(b); }
      else if(op==2){ OsiCuts cs; cs.insert(l1); cs.insert((const OsiRowCut&)q1); p->addCuts(cs); rows.push_back(b); rows.push_back(a); }
      else { Cuts cs; cs.insert(q1); Cuts c2(cs); Cuts c3; c3=c2; const OsiCuts&r=c3; p->addCuts(r); rows.push_back(a); } (void)two; }
    else if(op==4){ if(rows.empty())continue; int w=sc("rm",(int)rows.size(),k); int id=M+w; p->removeCuts(1,&id); rows.erase(rows.begin()+w); }
    else if(op==5){ if(rows.size()<2)continue; int w=sc("keep",(int)rows.size(),k); IV id; std::vector<Row> nr; for(int i=(int)rows.size()-1;i>=0;i--)if(i!=w)id.push_back(M+i); nr.push_back(rows[w]); p->removeCuts((unsigned)id.size(),&id[0]); rows=nr; }
    else if(op==6){ old=p; oldrows=rows; p=(TMINLP2TNLPQuadCuts*)old->clone(); }
    else { fill(lo,nm("lo",k)); c0=sd("c0",k); p->set_linear_objective(N,&lo[0],c0); hl=true; if(sc("reset",2,k)){p->reset_objective();hl=false;} } }
  check(*p,t,rows,hl?&lo:0,c0,"x"); if(IsValid(old))check(*old,t,oldrows,0,0,"y"); sym_reach("model");
}
// violation of a quadratic cut at a point is by how much its bounds are missed; rows made from cuts evaluate to the same
CASE(violated){
  sym_snapshot(); QuadCut q; OsiRowCut l; Row r=mkcut(0,true,q,l); DV x(N); fill(x,"x"); if(sc("copy",3)==1){ QuadCut z(q); q=z; } else { OsiRowCut*c=q.clone(); A(dynamic_cast<QuadCut*>(c)!=0,"a copied quadratic cut is quadratic"); q=*dynamic_cast<QuadCut*>(c); delete c; }
  double e=val(r,&x[0]),v=q.violated(&x[0]); A(sym_and(v>=r.lb-e-TOL,v>=e-r.ub-TOL),"violation covers both sides"); A(sym_or(v<=r.lb-e+TOL,v<=e-r.ub+TOL),"violation is attained");
  QuadRow w(q); EQ(w.eval_f(&x[0],true),e,"a row made from a cut has its value"); QuadRow w2; w2=q; EQ(w2.eval_f(&x[0],true),e,"a row assigned from a cut has its value"); QuadRow w3(w); EQ(w3.eval_f(&x[0],true),e,"a copied row has its value"); QuadRow w4; w4=w; EQ(w4.eval_f(&x[0],true),e,"an assigned row has its value"); sym_reach("violated");
}
