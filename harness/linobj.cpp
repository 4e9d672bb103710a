// Reformulation with a linear objective (TMINLPLinObj).
#include "ifstubs.hpp"
#include "BonTMINLPLinObj.hpp"
using namespace Bonmin;
static const int N=3,M=2,N1=4,M1=3; static const double TOL=1e-6,G=777.25;
#define EQ(a,b,w) A(sym_near((a),(b),TOL),w)
struct ScStub: public StubMINLP{ bool ux,ug,rs; double so; DV sx,sg; DV z; bool dz; ScStub(int n,int m):StubMINLP(n,m),ux(false),ug(false),rs(false),so(1),sx(n,1),sg(m,1),z(2*n+m,0.),dz(false){}
  bool get_scaling_parameters(Number&os,bool&a,Index,Number*x,bool&b,Index,Number*g){ os=so;a=ux;b=ug; if(ux)for(int i=0;i<n;i++)x[i]=sx[i]; if(ug)for(int i=0;i<m;i++)g[i]=sg[i]; return rs; }
  bool get_starting_point(Index,bool ix,Number*x,bool iz,Number*zl,Number*zu,Index,bool il,Number*la){ if(ix)for(int i=0;i<n;i++)x[i]=x0[i]; if(iz&&dz)for(int i=0;i<n;i++){zl[i]=z[i];zu[i]=z[n+i];} if(il&&dz)for(int i=0;i<m;i++)la[i]=z[2*n+i]; return dz||(!iz&&!il); } };
CASE(linobj){
  sym_snapshot(); ScStub*t=new ScStub(N,M); t->dense(); t->denseh(); t->style=sc("style",2)?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE; int o=t->off();
  t->f=sd("f"); fill(t->gradf,"df"); fill(t->g,"g"); fill(t->jac,"J"); fill(t->hess,"h"); fill(t->xl,"xl"); fill(t->xu,"xu"); fill(t->gl,"gl"); fill(t->gu,"gu"); fill(t->x0,"x0"); for(int i=0;i<N;i++)t->vt[i]=(i==1?sc("vt",2):i/2)?TMINLP::INTEGER:TMINLP::CONTINUOUS; t->clin[1]=Ipopt::TNLP::LINEAR; t->vlin[0]=Ipopt::TNLP::LINEAR;
  SmartPtr<TMINLP> h(t); SmartPtr<TMINLPLinObj> p=new TMINLPLinObj; p->setTminlp(h);
  Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; A(p->get_nlp_info(n,m,nj,nh,st)&&n==N1&&m==M1&&st==t->style,"one variable and one constraint are added"); if(n!=N1||m!=M1)return; DV x(N1); fill(x,"x");
  { std::vector<TMINLP::VariableType> v(N1+1,TMINLP::BINARY); A(p->get_variables_types(N1,&v[0]),"types"); for(int i=0;i<N;i++)A(v[i]==t->vt[i],"variable types are the user's"); A(v[N]==TMINLP::CONTINUOUS,"the added variable is continuous"); std::vector<Ipopt::TNLP::LinearityType> l(N1+1,Ipopt::TNLP::NON_LINEAR),c(M1+1,Ipopt::TNLP::LINEAR); A(p->get_variables_linearity(N1,&l[0])&&p->get_constraints_linearity(M1,&c[0]),"linearity"); for(int i=0;i<N;i++)A(l[i]==t->vlin[i],"variable linearity"); A(l[N]==Ipopt::TNLP::LINEAR,"the added variable is linear"); A(c[0]==Ipopt::TNLP::NON_LINEAR,"the objective constraint is nonlinear"); for(int i=0;i<M;i++)A(c[i+1]==t->clin[i],"constraint linearity"); A(p->hasLinearObjective(),"the objective is linear"); }
  { DV l(N1+1,G),u(N1+1,G),a(M1+1,G),b(M1+1,G); A(p->get_bounds_info(N1,&l[0],&u[0],M1,&a[0],&b[0]),"bounds"); for(int i=0;i<N;i++)A(same(l[i],t->xl[i])&&same(u[i],t->xu[i]),"variable bounds are the user's"); A(l[N]<=-1e100&&u[N]>=1e100,"the added variable is free"); A(a[0]<=-1e100&&b[0]==0,"f(x)-eta<=0"); for(int i=0;i<M;i++)A(same(a[i+1],t->gl[i])&&same(b[i+1],t->gu[i]),"constraint bounds are the user's"); A(l[N1]==G&&u[N1]==G&&a[M1]==G&&b[M1]==G,"bounds stay inside the arrays"); }
  { double v=G; A(p->eval_f(N1,&x[0],true,v)&&same(v,x[N]),"the objective is the added variable"); DV d(N1+1,G); A(p->eval_grad_f(N1,&x[0],true,&d[0]),"gradient"); for(int i=0;i<N1;i++)A(d[i]==(i==N),"objective gradient"); A(d[N1]==G,"gradient in array"); }
  t->retf=sc("rf",2); t->retg=sc("rg",2); { DV g(M1+1,G); bool r=p->eval_g(N1,&x[0],true,M1,&g[0]); A(r==(t->retf&&t->retg),"evaluation errors are reported"); if(r){ EQ(g[0],t->f-x[N],"the first constraint is f(x)-eta"); for(int i=0;i<M;i++)A(same(g[i+1],t->g[i]),"the other constraints are the user's"); for(int i=0;i<N;i++)A(same(t->lastx[i],x[i]),"evaluated at the point"); } A(g[M1]==G,"constraints stay inside the array");
    for(int i=0;i<M1;i++){ double v=G; bool q=p->eval_gi(N1,&x[0],true,i,v); A(q==(i?t->retg:t->retf),"single evaluation errors"); if(q)EQ(v,i?t->g[i-1]:t->f-x[N],"single constraint"); } }
  t->retf=t->retg=true; t->retgf=sc("rgf",2); t->retj=sc("rj",2);
  { A(nj==N*M+N1,"size of the Jacobian"); if(nj!=N*M+N1)return; IV r(nj+1,-99),c(nj+1,-99); DV v(nj+1,G); bool q1=p->eval_jac_g(N1,NULL,false,M1,nj,&r[0],&c[0],NULL); A(q1==t->retj,"errors of the Jacobian structure"); bool q=p->eval_jac_g(N1,&x[0],true,M1,nj,NULL,NULL,&v[0]); A(q==(t->retgf&&t->retj),"errors of the Jacobian"); A(r[nj]==-99&&c[nj]==-99&&v[nj]==G,"Jacobian stays inside the arrays"); A(t->last_m==M,"the user sees his own number of constraints");
    std::vector<DV> J(M1,DV(N1,0)); for(int k=0;k<nj;k++){ int i=r[k]-o,j=c[k]-o; bool ok=i>=0&&i<M1&&j>=0&&j<N1; A(ok,"Jacobian indices in range"); if(!ok)return; J[i][j]+=v[k]; } for(int j=0;j<N;j++)A(same(J[0][j],t->gradf[j]),"gradient of the objective constraint"); A(J[0][N]==-1,"the added variable has coefficient -1 in it"); for(int i=0;i<M;i++){for(int j=0;j<N;j++)A(same(J[i+1][j],t->jac[i*N+j]),"Jacobian of the user's constraints"); A(J[i+1][N]==0,"the added variable is in no other constraint");}
    for(int i=0;i<M1;i++){ int ne=-1; IV cc(N1+1,-99); DV vv(N1+1,G); bool s1=p->eval_grad_gi(N1,&x[0],true,i,ne,&cc[0],NULL); if(i)A(s1==t->retj,"errors"); else A(s1,"structure of the objective constraint"); A(ne==(i?N:N1),"single gradient size"); if(ne<0||ne>N1)return; s1=p->eval_grad_gi(N1,&x[0],true,i,ne,NULL,&vv[0]); A(s1==(i?t->retj:t->retgf),"errors of single gradients"); DV d(N1,0); for(int a=0;a<ne;a++){ int j=cc[a]-o; A(j>=0&&j<N1,"single gradient index"); if(j<0||j>=N1)return; d[j]+=vv[a]; } for(int j=0;j<N1;j++)A(same(d[j],J[i][j]),"single gradients are the Jacobian's rows"); } }
  { A(nh==N*(N+1)/2,"size of the Hessian"); IV r(nh+1,-99),c(nh+1,-99); DV v(nh+1,G),lam(M1); fill(lam,"lam"); double of=sd("of"); A(p->eval_h(N1,NULL,false,of,M1,NULL,false,nh,&r[0],&c[0],NULL)&&p->eval_h(N1,&x[0],true,of,M1,&lam[0],true,nh,NULL,NULL,&v[0]),"Hessian"); A(t->last_m==M&&same(t->last_of,lam[0]),"the objective's weight is the multiplier of its constraint"); for(int i=0;i<M;i++)A(same(t->last_lambda[i],lam[i+1]),"multipliers of the user's constraints"); A(r[nh]==-99&&v[nh]==G,"Hessian stays inside the arrays"); for(int i=0,k=0;i<N;i++)for(int j=0;j<=i;j++,k++)A(r[k]==i+o&&c[k]==j+o,"Hessian structure is the user's"); }
  { t->dz=sc("dz",2); fill(t->z,"z"); bool wz=sc("wz",2),wl=sc("wl",2); DV a(N1+1,G),zl(N1+1,G),zu(N1+1,G),la(M1+1,G); bool q=p->get_starting_point(N1,true,&a[0],wz,&zl[0],&zu[0],M1,wl,wl?&la[0]:NULL); A(q==(t->dz||(!wz&&!wl)),"start point availability"); for(int i=0;i<N;i++)A(same(a[i],t->x0[i]),"start point is the user's"); A(same(a[N],t->f),"the added variable starts at the objective"); if(q&&wz){for(int i=0;i<N;i++)A(same(zl[i],t->z[i])&&same(zu[i],t->z[N+i]),"bound multipliers"); A(zl[N]==0&&zu[N]==0,"multipliers of the added variable");} if(q&&wl){A(la[0]==0,"multiplier of the objective constraint"); for(int i=0;i<M;i++)A(same(la[i+1],t->z[2*N+i]),"multipliers are the user's");} A(a[N1]==G&&zl[N1]==G&&zu[N1]==G&&la[M1]==G,"start point stays inside the arrays"); }
  { t->ux=sc("ux",2); t->ug=sc("ug",2); t->rs=true; t->so=sdr("so",0.5,4); fill(t->sx,"sx",0.5,4); fill(t->sg,"sg",0.5,4); double os=G; bool ux=false,ug=false; DV a(N1+1,G),b(M1+1,G); A(p->get_scaling_parameters(os,ux,N1,&a[0],ug,M1,&b[0])&&ux==t->ux&&ug==t->ug,"scaling is asked of the user"); A(os==1,"the linear objective is not scaled"); if(ux){for(int i=0;i<N;i++)A(same(a[i],t->sx[i]),"variable scaling is the user's");A(a[N]==1,"scaling of the added variable");} if(ug){for(int i=0;i<M;i++)A(same(b[i+1],t->sg[i]),"constraint scaling is the user's");A(same(b[0],t->so),"the objective constraint has the objective's scaling");} A(a[N1]==G&&b[M1]==G,"scaling stays inside the arrays"); }
  { double ob=sd("ob"); p->finalize_solution(TMINLP::SUCCESS,N1,&x[0],ob); A(t->fin==1&&t->fin_status==TMINLP::SUCCESS&&same(t->fin_obj,ob)&&(int)t->fin_x.size()==N,"the solution is given to the user in his own variables"); if((int)t->fin_x.size()==N)for(int i=0;i<N;i++)A(same(t->fin_x[i],x[i]),"final point"); }
  sym_reach("linobj");
}
