// Stand-in LP/MIP solver: stores what it is given, answers solves through a callback.
#ifndef LPSTUB_HPP
#define LPSTUB_HPP
#include "common.hpp"
#include "OsiSolverInterface.hpp"
#include "OsiRowCut.hpp"
#include "OsiColCut.hpp"
#include "OsiCuts.hpp"
#include "CoinPackedMatrix.hpp"
#include "CoinPackedVector.hpp"
#include "CoinWarmStartBasis.hpp"
typedef std::vector<double> DV; typedef std::vector<int> IV;
struct StubLP: public OsiSolverInterface{
  int n,m; DV cl,cu,ob,rl,ru; std::vector<std::map<int,double> > rows; std::vector<char> isint; double offset;
  DV x,price,rc,act; double objv; int status; // 0 optimal 1 infeasible 2 unbounded 3 iterlimit 4 abandoned
  void(*answer)(StubLP&); int nsolve; mutable CoinPackedMatrix*mr,*mc; int dualLimit; int iters;
  std::vector<std::string> log; double dol=1e50; const StubLP*parent=0;
  StubLP():n(0),m(0),offset(0),objv(0),status(0),answer(0),nsolve(0),mr(0),mc(0),dualLimit(0),iters(0){}
  StubLP(const StubLP&o):OsiSolverInterface(o),n(o.n),m(o.m),cl(o.cl),cu(o.cu),ob(o.ob),rl(o.rl),ru(o.ru),rows(o.rows),isint(o.isint),offset(o.offset),x(o.x),price(o.price),rc(o.rc),act(o.act),objv(o.objv),status(o.status),answer(o.answer),nsolve(o.nsolve),mr(0),mc(0),dualLimit(o.dualLimit),iters(o.iters),dol(o.dol),parent(&o){}
  void dims(int n_,int m_){ n=n_;m=m_;cl.assign(n,0);cu.assign(n,0);ob.assign(n,0);rl.assign(m,0);ru.assign(m,0);rows.assign(m,std::map<int,double>());isint.assign(n,0);x.assign(n,0);price.assign(m,0);rc.assign(n,0);act.assign(m,0);drop(); }
  void drop(){ delete mr;delete mc;mr=mc=0; }
  void solve(){ nsolve++; if(answer)answer(*this); }
  void initialSolve(){solve();} void resolve(){solve();} void branchAndBound(){solve();}
  bool isAbandoned()const{return status==4;} bool isProvenOptimal()const{return status==0;} bool isProvenPrimalInfeasible()const{return status==1;} bool isProvenDualInfeasible()const{return status==2;} bool isIterationLimitReached()const{return status==3;} bool isDualObjectiveLimitReached()const{return dualLimit;} bool isPrimalObjectiveLimitReached()const{return false;}
  CoinWarmStart*getEmptyWarmStart()const{return new CoinWarmStartBasis();} CoinWarmStart*getWarmStart()const{CoinWarmStartBasis*b=new CoinWarmStartBasis();b->setSize(n,m);return b;} bool setWarmStart(const CoinWarmStart*){return true;}
  int getNumCols()const{return n;} int getNumRows()const{return m;} CoinBigIndex getNumElements()const{int k=0;for(auto&r:rows)k+=(int)r.size();return k;}
  const double*getColLower()const{return cl.data();} const double*getColUpper()const{return cu.data();} const char*getRowSense()const{return 0;} const double*getRightHandSide()const{return 0;} const double*getRowRange()const{return 0;} const double*getRowLower()const{return rl.data();} const double*getRowUpper()const{return ru.data();} const double*getObjCoefficients()const{return ob.data();} double getObjSense()const{return 1;} bool isContinuous(int i)const{return !isint[i];}
  const CoinPackedMatrix*build(bool col)const{ IV r,c;DV v; for(int i=0;i<m;i++)for(auto&e:rows[i]){r.push_back(i);c.push_back(e.first);v.push_back(e.second);} CoinPackedMatrix*M=new CoinPackedMatrix(col,r.data(),c.data(),v.data(),(int)r.size()); M->setDimensions(m,n); return M; }
  const CoinPackedMatrix*getMatrixByRow()const{ if(!mr)mr=(CoinPackedMatrix*)build(false); return mr;} const CoinPackedMatrix*getMatrixByCol()const{ if(!mc)mc=(CoinPackedMatrix*)build(true); return mc;}
  double getInfinity()const{return 1.7976931348623157e308;} const double*getColSolution()const{return x.data();} const double*getRowPrice()const{return price.data();} const double*getReducedCost()const{return rc.data();} const double*getRowActivity()const{return act.data();} double getObjValue()const{return objv;} int getIterationCount()const{return iters;}
  std::vector<double*> getDualRays(int,bool)const{return std::vector<double*>();} std::vector<double*> getPrimalRays(int)const{return std::vector<double*>();}
  void setObjCoeff(int i,double v){ob[i]=v;} void setObjective(const double*a){for(int i=0;i<n;i++)ob[i]=a[i];} void setObjSense(double){} void setColLower(int i,double v){cl[i]=v;} void setColUpper(int i,double v){cu[i]=v;} void setColLower(const double*a){for(int i=0;i<n;i++)cl[i]=a[i];} void setColUpper(const double*a){for(int i=0;i<n;i++)cu[i]=a[i];} void setColBounds(int i,double a,double b){cl[i]=a;cu[i]=b;} void setRowLower(int i,double v){rl[i]=v;} void setRowUpper(int i,double v){ru[i]=v;} void setRowBounds(int i,double a,double b){rl[i]=a;ru[i]=b;} void setRowType(int,char,double,double){abort();}
  void setColSolution(const double*c){for(int i=0;i<n;i++)x[i]=c[i];} void setRowPrice(const double*){} void setContinuous(int i){isint[i]=0;} void setInteger(int i){isint[i]=1;} using OsiSolverInterface::setInteger; using OsiSolverInterface::setContinuous;
  using OsiSolverInterface::addCol; using OsiSolverInterface::addRow;
  void addCol(const CoinPackedVectorBase&v,const double a,const double b,const double o){ for(int k=0;k<v.getNumElements();k++)rows[v.getIndices()[k]][n]+=v.getElements()[k]; n++; cl.push_back(a);cu.push_back(b);ob.push_back(o);isint.push_back(0);x.push_back(0);rc.push_back(0);drop(); }
  void deleteCols(const int,const int*){abort();}
  void addRow(const CoinPackedVectorBase&v,const double a,const double b){ std::map<int,double> r; const int*ix=v.getIndices();const double*el=v.getElements(); for(int k=0;k<v.getNumElements();k++){ A(ix[k]>=0&&ix[k]<n,"row refers to existing columns"); r[ix[k]]+=el[k]; } rows.push_back(r);rl.push_back(a);ru.push_back(b);price.push_back(0);act.push_back(0);m++;drop(); }
  void addRow(const CoinPackedVectorBase&v,const char s,const double rhs,const double rng){ double a,b; convertSenseToBound(s,rhs,rng,a,b); addRow(v,a,b); }
  void deleteRows(const int k,const int*w){ std::vector<char> d(m,0); for(int i=0;i<k;i++)d[w[i]]=1; int j=0; for(int i=0;i<m;i++)if(!d[i]){rows[j]=rows[i];rl[j]=rl[i];ru[j]=ru[i];j++;} m=j;rows.resize(m);rl.resize(m);ru.resize(m);price.resize(m);act.resize(m);drop(); }
  using OsiSolverInterface::loadProblem;
  void loadProblem(const CoinPackedMatrix&M,const double*a,const double*b,const double*o,const double*l,const double*u){ dims(M.getNumCols(),M.getNumRows()); for(int i=0;i<n;i++){cl[i]=a?a[i]:0;cu[i]=b?b[i]:getInfinity();ob[i]=o?o[i]:0;} for(int i=0;i<m;i++){rl[i]=l?l[i]:-getInfinity();ru[i]=u?u[i]:getInfinity();} bool co=M.isColOrdered(); int maj=co?n:m; for(int j=0;j<maj;j++){ int s=M.getVectorStarts()[j],e=s+M.getVectorLengths()[j]; for(int k=s;k<e;k++){ int i=M.getIndices()[k]; if(co)rows[i][j]+=M.getElements()[k]; else rows[j][i]+=M.getElements()[k]; } } }
  void assignProblem(CoinPackedMatrix*&,double*&,double*&,double*&,double*&,double*&){abort();} void loadProblem(const CoinPackedMatrix&,const double*,const double*,const double*,const char*,const double*,const double*){abort();} void assignProblem(CoinPackedMatrix*&,double*&,double*&,double*&,char*&,double*&,double*&){abort();}
  void loadProblem(const int,const int,const CoinBigIndex*,const int*,const double*,const double*,const double*,const double*,const double*,const double*){abort();} void loadProblem(const int,const int,const CoinBigIndex*,const int*,const double*,const double*,const double*,const double*,const char*,const double*,const double*){abort();}
  void writeMps(const char*,const char*,double)const{} OsiSolverInterface*clone(bool)const{return new StubLP(*this);} 
  void applyRowCut(const OsiRowCut&c){addRow(c.row(),c.lb(),c.ub());} void applyColCut(const OsiColCut&){abort();}
  void applyRowCuts(int k,const OsiRowCut*c){for(int i=0;i<k;i++)applyRowCut(c[i]);} void applyRowCuts(int k,const OsiRowCut**c){for(int i=0;i<k;i++)applyRowCut(*c[i]);}
  bool setDblParam(OsiDblParam k,double v){ if(k==OsiObjOffset)offset=v; if(k==OsiDualObjectiveLimit)dol=v; return OsiSolverInterface::setDblParam(k,0.); } bool getDblParam(OsiDblParam k,double&v)const{ if(k==OsiObjOffset){v=offset;return true;} if(k==OsiDualObjectiveLimit){v=dol;return true;} return OsiSolverInterface::getDblParam(k,v);}
  // the row's left-hand side at a point
  double lhs(int i,const DV&y)const{ double s=0; for(auto&e:rows[i])s+=e.second*y[e.first]; return s; }
};
static inline double cutlhs(const OsiRowCut&c,const double*y){ double s=0; const CoinPackedVector&r=c.row(); for(int k=0;k<r.getNumElements();k++)s+=r.getElements()[k]*y[r.getIndices()[k]]; return s; }
#endif
