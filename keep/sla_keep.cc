// Takes the address of the inline functions under contract so that the compiler emits their bodies.  No logic here.
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <algorithm>
#include "zmdpCommonDefs.h"
#include "sla.h"
#include "slaMatrixUtils.h"
#include "MatrixUtils.h"
#include "sla_mask.h"
using namespace sla;
template<class F> struct Id { typedef F T; };
__attribute__((used)) Id<double(*)(const cvector&)>::T keep_1 = norm_1;
__attribute__((used)) Id<double(*)(const cvector&)>::T keep_2 = norm_inf;
__attribute__((used)) Id<double(*)(const dvector&)>::T keep_3 = norm_inf;
__attribute__((used)) Id<double(*)(const cvector&)>::T keep_4 = sum;
__attribute__((used)) Id<double(*)(const dvector&)>::T keep_5 = sum;
__attribute__((used)) Id<void(*)(dvector&,const cmatrix&,const cvector&)>::T keep_6 = mult;
__attribute__((used)) Id<void(*)(cvector&,const cmatrix&,const cvector&)>::T keep_7 = mult;
__attribute__((used)) Id<void(*)(dvector&,const dvector&,const cmatrix&)>::T keep_8 = mult;
__attribute__((used)) Id<void(*)(dvector&,const cvector&,const cmatrix&)>::T keep_9 = mult;
__attribute__((used)) Id<void(*)(cvector&,const cvector&,const cmatrix&)>::T keep_10 = mult;
__attribute__((used)) Id<void(*)(dvector&,const dvector&,const dvector&)>::T keep_11 = emult;
__attribute__((used)) Id<void(*)(cvector&,const cvector&,const cvector&)>::T keep_12 = emult;
__attribute__((used)) Id<void(*)(cvector&,const cmatrix&,unsigned,const cvector&)>::T keep_13 = emult_column;
__attribute__((used)) Id<void(*)(dvector&,const dvector&,const cvector&)>::T keep_14 = emult;
__attribute__((used)) Id<void(*)(dvector&,const cmatrix&,unsigned,const dvector&)>::T keep_15 = emult_column;
__attribute__((used)) Id<void(*)(dvector&,const dvector&,const dvector&)>::T keep_16 = emax;
__attribute__((used)) Id<void(*)(dvector&,const dvector&)>::T keep_17 = max_assign;
__attribute__((used)) Id<double(*)(const dvector&,const cvector&)>::T keep_18 = inner_prod;
__attribute__((used)) Id<double(*)(const cvector&,const cvector&)>::T keep_19 = inner_prod;
__attribute__((used)) Id<double(*)(const cmatrix&,unsigned,const cvector&)>::T keep_20 = inner_prod_column;
__attribute__((used)) Id<void(*)(cvector&,const cvector&,const cvector&)>::T keep_21 = add;
__attribute__((used)) Id<void(*)(cvector&,const cvector&,const cvector&)>::T keep_22 = subtract;
__attribute__((used)) Id<bool(*)(const dvector&,const dvector&,double)>::T keep_23 = dominates;
__attribute__((used)) Id<bool(*)(const cvector&,const cvector&,double)>::T keep_24 = dominates;
__attribute__((used)) Id<void(*)(dvector&,const cvector&)>::T keep_25 = copy;
__attribute__((used)) Id<void(*)(cvector&,const dvector&)>::T keep_26 = copy;
__attribute__((used)) Id<void(*)(cmatrix&,kmatrix&)>::T keep_27 = copy;
__attribute__((used)) Id<void(*)(cvector&,const cmatrix&,unsigned)>::T keep_28 = copy_from_column;
__attribute__((used)) Id<void(*)(dvector&,const cmatrix&,unsigned)>::T keep_29 = copy_from_column;
__attribute__((used)) Id<void(*)(dvector&,unsigned)>::T keep_30 = set_to_one;
__attribute__((used)) Id<void(*)(cvector&,unsigned)>::T keep_31 = set_to_one;
__attribute__((used)) Id<void(*)(kmatrix&,unsigned,unsigned,double)>::T keep_32 = kmatrix_set_entry;
__attribute__((used)) Id<void(*)(kmatrix&)>::T keep_33 = kmatrix_transpose_in_place;
__attribute__((used)) Id<void(*)(cvector&,const cvector&)>::T keep_34 = copy;
__attribute__((used)) Id<void(*)(dvector&,const dvector&)>::T keep_35 = copy;
__attribute__((used)) Id<void(*)(mvector&,int)>::T keep_40 = mask_set_all;
__attribute__((used)) Id<void(*)(cvector&,const mvector&)>::T keep_41 = mask_set_to_one;
__attribute__((used)) Id<bool(*)(const cvector&,const mvector&)>::T keep_42 = mask_subset;
__attribute__((used)) Id<void(*)(cvector&,const dvector&,const mvector&)>::T keep_43 = mask_copy;
__attribute__((used)) Id<void(*)(cvector&,const cvector&,const mvector&)>::T keep_44 = mask_copy;
__attribute__((used)) Id<bool(*)(const cvector&,const cvector&,double,const mvector&,const mvector&)>::T keep_45 = mask_dominates;
__attribute__((used)) Id<int(*)(const dvector&)>::T keep_50 = MatrixUtils::argmax_elt;
__attribute__((used)) Id<int(*)(const cvector&)>::T keep_51 = MatrixUtils::argmax_elt;
__attribute__((used)) Id<int(*)(const dvector&)>::T keep_52 = MatrixUtils::chooseFromDistribution;
__attribute__((used)) Id<int(*)(const cvector&)>::T keep_53 = MatrixUtils::chooseFromDistribution;
__attribute__((used)) double kd1(const cvector&x,unsigned i){return x(i);}
__attribute__((used)) double kd2(const cmatrix&x,unsigned i,unsigned j){return x(i,j);}
__attribute__((used)) double kd3(const kmatrix&x,unsigned i,unsigned j){return x(i,j);}
__attribute__((used)) double kd4(const dmatrix&x,unsigned i,unsigned j){return x(i,j);}
__attribute__((used)) void kd5(cvector&x,double s,const cvector&y){x*=s;x+=y;x-=y;}
__attribute__((used)) void kd6(dvector&x,double s,const dvector&y){x*=s;x+=y;x-=y;}
__attribute__((used)) void kd7(cmatrix&x,unsigned a){x.resize(a,a);x.push_back(a,a,1.0);x.canonicalize();x.filled_in_column(a);}
__attribute__((used)) void kd8(kmatrix&x,unsigned a){x.resize(a,a);x.push_back(a,a,1.0);x.canonicalize();x.clear();}
__attribute__((used)) void kd9(dmatrix&x,unsigned a){x.resize(a,a);}
__attribute__((used)) void kd10(dvector&x,unsigned a){x.resize(a);cvector y;y.resize(a);y.push_back(a,1.0);x(a)=1;}
