// Encoded stand-ins for functions of the solver libraries that only move data
// (their own code is not available as source): the executable's definitions
// take precedence over the shared libraries'.
#include "sym.h"
#include <cmath>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <string>
#include <iostream>
#include <sstream>
#include <cassert>
#include <cstring>
#include <memory>
#include <functional>
#include <algorithm>
#define private public
#define protected public
#include "CoinPackedVector.hpp"
#include "CoinPackedMatrix.hpp"
#include "OsiRowCut.hpp"
#include "CoinWarmStartPrimalDual.hpp"
#undef private
#undef protected
#include "IpBlas.hpp"
namespace Ipopt {
void IpBlasDcopy(Index n,const Number*x,Index ix,Number*y,Index iy){ for(Index i=0;i<n;i++)y[(long)i*iy]=x[(long)i*ix]; }
Number IpBlasDdot(Index n,const Number*x,Index ix,const Number*y,Index iy){ Number s=0; for(Index i=0;i<n;i++)s+=x[(long)i*ix]*y[(long)i*iy]; return s; }
void IpBlasDaxpy(Index n,Number a,const Number*x,Index ix,Number*y,Index iy){ for(Index i=0;i<n;i++)y[(long)i*iy]+=a*x[(long)i*ix]; }
void IpBlasDscal(Index n,Number a,Number*x,Index ix){ for(Index i=0;i<n;i++)x[(long)i*ix]*=a; }
}
extern "C" double pow(double x,double y) noexcept { if(y==2.)return x*x; if(y==.5)return __builtin_sqrt(x); if(y==1.)return x; if(y==0.)return 1.; return __builtin_exp2(y*__builtin_log2(x)); }
// --- CoinPackedVector
static void pv_set(CoinPackedVector*v,int n,const int*ix,const double*el,int cap){ v->indices_=cap?new int[cap]:0; v->elements_=cap?new double[cap]:0; v->origIndices_=cap?new int[cap]:0; v->capacity_=cap; v->nElements_=n; for(int i=0;i<n;i++){v->indices_[i]=ix[i];v->elements_[i]=el[i];v->origIndices_[i]=i;} }
CoinPackedVector::CoinPackedVector(bool t):CoinPackedVectorBase(),indices_(0),elements_(0),nElements_(0),origIndices_(0),capacity_(0){ setTestForDuplicateIndex(t); }
CoinPackedVector::CoinPackedVector(int n,const int*ix,const double*el,bool t):CoinPackedVectorBase(){ pv_set(this,n,ix,el,n); setTestForDuplicateIndex(t); }
CoinPackedVector::CoinPackedVector(int n,const double*el,bool t):CoinPackedVectorBase(){ std::vector<int> ix(n); for(int i=0;i<n;i++)ix[i]=i; pv_set(this,n,ix.data(),el,n); setTestForDuplicateIndex(t); }
CoinPackedVector::CoinPackedVector(int n,const int*ix,double e,bool t):CoinPackedVectorBase(){ std::vector<double> el(n,e); pv_set(this,n,ix,el.data(),n); setTestForDuplicateIndex(t); }
CoinPackedVector::CoinPackedVector(const CoinPackedVector&o):CoinPackedVectorBase(){ pv_set(this,o.nElements_,o.indices_,o.elements_,o.nElements_); setTestsOff(); setTestForDuplicateIndex(o.testForDuplicateIndex()); }
CoinPackedVector::CoinPackedVector(const CoinPackedVectorBase&o):CoinPackedVectorBase(){ pv_set(this,o.getNumElements(),o.getIndices(),o.getElements(),o.getNumElements()); setTestForDuplicateIndex(o.testForDuplicateIndex()); }
CoinPackedVector::~CoinPackedVector(){ delete[]indices_;delete[]elements_;delete[]origIndices_; }
CoinPackedVector&CoinPackedVector::operator=(const CoinPackedVector&o){ if(this!=&o){ clear(); delete[]indices_;delete[]elements_;delete[]origIndices_; pv_set(this,o.nElements_,o.indices_,o.elements_,o.nElements_); setTestForDuplicateIndex(o.testForDuplicateIndex()); } return *this; }
CoinPackedVector&CoinPackedVector::operator=(const CoinPackedVectorBase&o){ if(this!=&o){ clear(); delete[]indices_;delete[]elements_;delete[]origIndices_; pv_set(this,o.getNumElements(),o.getIndices(),o.getElements(),o.getNumElements()); setTestForDuplicateIndex(o.testForDuplicateIndex()); } return *this; }
void CoinPackedVector::clear(){ nElements_=0; clearBase(); }
void CoinPackedVector::reserve(int n){ if(n<=capacity_)return; int*i=indices_,*o=origIndices_;double*e=elements_; int k=nElements_; indices_=new int[n];elements_=new double[n];origIndices_=new int[n];capacity_=n; for(int t=0;t<k;t++){indices_[t]=i[t];elements_[t]=e[t];origIndices_[t]=o[t];} delete[]i;delete[]o;delete[]e; }
void CoinPackedVector::insert(int ix,double el){ if(capacity_<=nElements_)reserve(std::max(5,2*capacity_)); indices_[nElements_]=ix;elements_[nElements_]=el;origIndices_[nElements_]=nElements_; ++nElements_; clearIndexSet(); }
void CoinPackedVector::setElement(int k,double el){ elements_[k]=el; }
void CoinPackedVector::setVector(int n,const int*ix,const double*el,bool t){ clear(); delete[]indices_;delete[]elements_;delete[]origIndices_; pv_set(this,n,ix,el,n); setTestForDuplicateIndex(t); }
void CoinPackedVector::gutsOfSetVector(int n,const int*ix,const double*el,bool t,const char*){ setVector(n,ix,el,t); }
double CoinPackedVectorBase::dotProduct(const double*d)const{ double s=0; const int*ix=getIndices();const double*el=getElements(); for(int i=0;i<getNumElements();i++)s+=d[ix[i]]*el[i]; return s; }
// --- OsiRowCut
OsiRowCut::OsiRowCut():OsiCut(),row_(),lb_(-COIN_DBL_MAX),ub_(COIN_DBL_MAX){}
OsiRowCut::OsiRowCut(const OsiRowCut&o):OsiCut(o),row_(o.row_),lb_(o.lb_),ub_(o.ub_){}
OsiRowCut&OsiRowCut::operator=(const OsiRowCut&o){ if(this!=&o){ OsiCut::operator=(o); row_=o.row_; lb_=o.lb_; ub_=o.ub_; } return *this; }
OsiRowCut*OsiRowCut::clone()const{ return new OsiRowCut(*this); }
OsiRowCut::~OsiRowCut(){}
// the class's key function is defined here so that its virtual table is this one
bool OsiRowCut::consistent()const{ return row_.getNumElements()==0||row_.getMinIndex()>=0; } bool OsiRowCut::consistent(const OsiSolverInterface&)const{ return true; } bool OsiRowCut::infeasible(const OsiSolverInterface&)const{ return lb_>ub_; }
double OsiRowCut::violated(const double*x)const{ double s=0; for(int i=0;i<row_.getNumElements();i++)s+=x[row_.getIndices()[i]]*row_.getElements()[i]; if(s>ub_)return s-ub_; if(s<lb_)return lb_-s; return 0; } void OsiRowCut::print()const{}
double OsiRowCut::lb()const{return lb_;} void OsiRowCut::setLb(double v){lb_=v;} double OsiRowCut::ub()const{return ub_;} void OsiRowCut::setUb(double v){ub_=v;}
void OsiRowCut::setRow(int n,const int*ix,const double*el,bool t){ row_.setVector(n,ix,el,t); } void OsiRowCut::setRow(const CoinPackedVector&v){ row_=v; }
const CoinPackedVector&OsiRowCut::row()const{return row_;} CoinPackedVector&OsiRowCut::mutableRow(){return row_;}
// --- CoinPackedMatrix (no gaps)
static void pm_alloc(CoinPackedMatrix*M,bool co,int maj,int min,int size){ M->colOrdered_=co;M->extraGap_=0;M->extraMajor_=0;M->majorDim_=maj;M->minorDim_=min;M->size_=size;M->maxMajorDim_=maj;M->maxSize_=size; M->element_=new double[size+1];M->index_=new int[size+1];M->start_=new CoinBigIndex[maj+1];M->length_=new int[maj+1]; for(int i=0;i<=maj;i++){M->start_[i]=0;M->length_[i]=0;} }
static void pm_free(CoinPackedMatrix*M){ delete[]M->element_;delete[]M->index_;delete[]M->start_;delete[]M->length_; M->element_=0;M->index_=0;M->start_=0;M->length_=0; }
static void pm_fill(CoinPackedMatrix*M,bool co,int min,const std::vector<std::vector<std::pair<int,double> > >&v){ int size=0; for(size_t i=0;i<v.size();i++)size+=(int)v[i].size(); pm_alloc(M,co,(int)v.size(),min,size); int k=0; for(size_t i=0;i<v.size();i++){ M->start_[i]=k; M->length_[i]=(int)v[i].size(); for(size_t t=0;t<v[i].size();t++){M->index_[k]=v[i][t].first;M->element_[k]=v[i][t].second;k++;} } M->start_[v.size()]=k; }
typedef std::vector<std::vector<std::pair<int,double> > > VV;
static void pm_read(const CoinPackedMatrix*M,VV&v){ v.assign(M->majorDim_,std::vector<std::pair<int,double> >()); for(int i=0;i<M->majorDim_;i++)for(int k=0;k<M->length_[i];k++)v[i].push_back(std::make_pair(M->index_[M->start_[i]+k],M->element_[M->start_[i]+k])); }
CoinPackedMatrix::CoinPackedMatrix(){ pm_alloc(this,true,0,0,0); }
CoinPackedMatrix::CoinPackedMatrix(const bool co,const double,const double){ pm_alloc(this,co,0,0,0); }
CoinPackedMatrix::CoinPackedMatrix(const bool co,const int*ri,const int*ci,const double*el,CoinBigIndex n){ const int*mj=co?ci:ri,*mi=co?ri:ci; int maj=-1,min=-1; for(int i=0;i<n;i++){maj=std::max(maj,mj[i]);min=std::max(min,mi[i]);} VV v(maj+1); for(int i=0;i<n;i++){ std::vector<std::pair<int,double> >&r=v[mj[i]]; size_t t=0; for(;t<r.size();t++)if(r[t].first==mi[i]){r[t].second+=el[i];break;} if(t==r.size())r.push_back(std::make_pair(mi[i],el[i])); } pm_fill(this,co,min+1,v); }
CoinPackedMatrix::CoinPackedMatrix(const bool co,const int minor,const int major,const CoinBigIndex,const double*el,const int*ix,const CoinBigIndex*st,const int*len){ VV v(major); for(int i=0;i<major;i++){ int e=len?st[i]+len[i]:st[i+1]; for(int k=st[i];k<e;k++)v[i].push_back(std::make_pair(ix[k],el[k])); } pm_fill(this,co,minor,v); }
CoinPackedMatrix::CoinPackedMatrix(const CoinPackedMatrix&o){ VV v; pm_read(&o,v); pm_fill(this,o.colOrdered_,o.minorDim_,v); }
CoinPackedMatrix&CoinPackedMatrix::operator=(const CoinPackedMatrix&o){ if(this!=&o){ VV v; pm_read(&o,v); pm_free(this); pm_fill(this,o.colOrdered_,o.minorDim_,v); } return *this; }
CoinPackedMatrix::~CoinPackedMatrix(){ pm_free(this); }
void CoinPackedMatrix::setDimensions(int r,int c){ int nr=getNumRows(),nc=getNumCols(); if(r<0)r=nr; if(c<0)c=nc; if(r<nr||c<nc)throw CoinError("Bad new rownum (less than current)","setDimensions","CoinPackedMatrix"); VV v; pm_read(this,v); bool co=colOrdered_; v.resize(co?c:r); pm_free(this); pm_fill(this,co,co?r:c,v); }
static void pm_delmaj(CoinPackedMatrix*M,int n,const int*d){ VV v,w; pm_read(M,v); std::vector<char> k(v.size(),0); for(int i=0;i<n;i++)k[d[i]]=1; for(size_t i=0;i<v.size();i++)if(!k[i])w.push_back(v[i]); bool co=M->colOrdered_; int min=M->minorDim_; pm_free(M); pm_fill(M,co,min,w); }
static void pm_delmin(CoinPackedMatrix*M,int n,const int*d){ VV v,w; pm_read(M,v); std::vector<int> nw(M->minorDim_); std::vector<char> k(M->minorDim_,0); for(int i=0;i<n;i++)k[d[i]]=1; int c=0; for(int i=0;i<M->minorDim_;i++)nw[i]=k[i]?-1:c++; w.resize(v.size()); for(size_t i=0;i<v.size();i++)for(size_t t=0;t<v[i].size();t++)if(nw[v[i][t].first]>=0)w[i].push_back(std::make_pair(nw[v[i][t].first],v[i][t].second)); bool co=M->colOrdered_; pm_free(M); pm_fill(M,co,c,w); }
void CoinPackedMatrix::deleteRows(const int n,const int*d){ if(n){ if(colOrdered_)pm_delmin(this,n,d); else pm_delmaj(this,n,d);} }
void CoinPackedMatrix::deleteCols(const int n,const int*d){ if(n){ if(colOrdered_)pm_delmaj(this,n,d); else pm_delmin(this,n,d);} }
static void pm_appmaj(CoinPackedMatrix*M,int n,const int*ix,const double*el){ VV v; pm_read(M,v); v.resize(v.size()+1); int min=M->minorDim_; for(int i=0;i<n;i++){v.back().push_back(std::make_pair(ix[i],el[i]));min=std::max(min,ix[i]+1);} bool co=M->colOrdered_; pm_free(M); pm_fill(M,co,min,v); }
static void pm_appmin(CoinPackedMatrix*M,int n,const int*ix,const double*el){ VV v; pm_read(M,v); int min=M->minorDim_; for(int i=0;i<n;i++){ if((int)v.size()<=ix[i])v.resize(ix[i]+1); v[ix[i]].push_back(std::make_pair(min,el[i])); } bool co=M->colOrdered_; pm_free(M); pm_fill(M,co,min+1,v); }
void CoinPackedMatrix::appendCol(const CoinPackedVectorBase&v){ if(colOrdered_)pm_appmaj(this,v.getNumElements(),v.getIndices(),v.getElements()); else pm_appmin(this,v.getNumElements(),v.getIndices(),v.getElements()); }
void CoinPackedMatrix::appendRow(const CoinPackedVectorBase&v){ if(!colOrdered_)pm_appmaj(this,v.getNumElements(),v.getIndices(),v.getElements()); else pm_appmin(this,v.getNumElements(),v.getIndices(),v.getElements()); }
void CoinPackedMatrix::appendCol(const int n,const int*ix,const double*el){ if(colOrdered_)pm_appmaj(this,n,ix,el); else pm_appmin(this,n,ix,el); }
void CoinPackedMatrix::appendRow(const int n,const int*ix,const double*el){ if(!colOrdered_)pm_appmaj(this,n,ix,el); else pm_appmin(this,n,ix,el); }
// --- CoinWarmStartPrimalDual differences
CoinWarmStartDiff*CoinWarmStartPrimalDual::generateDiff(const CoinWarmStart*const o)const{ const CoinWarmStartPrimalDual*w=dynamic_cast<const CoinWarmStartPrimalDual*>(o); if(!w)throw CoinError("Old warm start not of the right kind","generateDiff","CoinWarmStartPrimalDual"); CoinWarmStartPrimalDualDiff*d=new CoinWarmStartPrimalDualDiff; CoinWarmStartDiff*v=primal_.generateDiff(&w->primal_); d->primalDiff_.swap(*dynamic_cast<CoinWarmStartVectorDiff<double>*>(v)); delete v; v=dual_.generateDiff(&w->dual_); d->dualDiff_.swap(*dynamic_cast<CoinWarmStartVectorDiff<double>*>(v)); delete v; return d; }
void CoinWarmStartPrimalDual::applyDiff(const CoinWarmStartDiff*const c){ const CoinWarmStartPrimalDualDiff*d=dynamic_cast<const CoinWarmStartPrimalDualDiff*>(c); if(!d)throw CoinError("Diff not of the right kind","applyDiff","CoinWarmStartPrimalDual"); primal_.applyDiff(&d->primalDiff_); dual_.applyDiff(&d->dualDiff_); }
