SEEDS=[]
def S(**k): SEEDS.append(k)
H='''
#include <iostream>
#include <graphblas/graphblas.hpp>
using namespace grb;
'''
ALG='#include <algorithms/algorithms.hpp>\n'
OPT='src/graphblas/platforms/optimized_sequential/'
BE='both:'
S(id='C01_cancel', prop='C01', plats=['optimized_sequential'],
  edits=[(BE+'sparse_helpers.hpp', ('''                        ans = op.add(ans, op.mult(std::get<1>(*v1_it),
                                                  std::get<1>(*v2_it)));
                    }''',0), '''                        ans = op.add(ans, op.mult(std::get<1>(*v1_it),
                                                  std::get<1>(*v2_it)));
                        value_set = (ans != op.zero());
                    }''')],
  needs='C = A * transpose(B) where the products of one output element cancel to the additive identity',
  breaks='the output element is missing although both operands are stored at an inner index',
  demo=H+'''
int main(){
  Matrix<double> A(2,2),B(2,2),C(2,2);
  A.setElement(0,0,2); A.setElement(0,1,3); B.setElement(0,0,3); B.setElement(0,1,-2); B.setElement(1,1,5);
  mxm(C,NoMask(),NoAccumulate(),ArithmeticSemiring<double>(),A,transpose(B));
  return (C.nvals()==2 && C.hasElement(0,0) && C.extractElement(0,0)==0 && C.extractElement(0,1)==15)?0:1; }
''')
S(id='C02_drop_zero', prop='C02',
  edits=[(BE+'sparse_helpers.hpp', '''                        ans = op.mult(std::get<1>(*v2_it),
                                      std::get<1>(*v1_it));
                        value_set = true;''','''                        ans = op.mult(std::get<1>(*v2_it),
                                      std::get<1>(*v1_it));
                        value_set = (ans != op.zero());''')],
  needs='mxv where every product of an output element equals the additive identity (stored zero in the matrix or vector)',
  breaks='an output element whose operands intersect only in zero products is not stored',
  demo=H+'''
int main(){
  Matrix<double> A(2,2); Vector<double> u(2),w(2);
  A.setElement(0,0,0); A.setElement(1,1,4); u.setElement(0,3); u.setElement(1,2);
  mxv(w,NoMask(),NoAccumulate(),ArithmeticSemiring<double>(),A,u);
  return (w.nvals()==2 && w.hasElement(0) && w.extractElement(0)==0 && w.extractElement(1)==8)?0:1; }
''')
S(id='C05_empty_source', prop='C05',
  edits=[(BE+'sparse_helpers.hpp', '''                    std::tie(v1_idx, v1_val) = *v1_it;

                    if (!searchIndices(stencil_indices, v1_idx))''','''                    std::tie(v1_idx, v1_val) = *v1_it;

                    if (vec2.empty() || !searchIndices(stencil_indices, v1_idx))''')],
  needs='assign without accumulator of a source (or source row) without any entry over a region of the destination that has entries',
  breaks='the region keeps its old entries',
  demo=H+'''
int main(){
  Vector<double> u(2),w(4); std::vector<IndexType> ix{3,1};
  w.setElement(1,5); w.setElement(2,4);
  assign(w,NoMask(),NoAccumulate(),u,ix);
  return (w.nvals()==1 && !w.hasElement(1) && w.extractElement(2)==4)?0:1; }
''')
S(id='C09_comp_cast', prop='C09',
  edits=[(BE+'sparse_helpers.hpp', ('''                    if (static_cast<bool>(std::get<1>(*it)) == false)''',0),'''                    if (static_cast<int>(std::get<1>(*it)) == 0)''')],
  needs='a complemented mask of floating-point scalars with a stored value strictly between -1 and 1 and not zero',
  breaks='the mask element is treated as false, so the complement lets the position through',
  demo=H+'''
int main(){
  Matrix<double> A(1,2),C(1,2),M(1,2); A.setElement(0,0,3); A.setElement(0,1,4); M.setElement(0,0,0.5);
  apply(C,complement(M),NoAccumulate(),Identity<double>(),A,REPLACE);
  return (C.nvals()==1 && !C.hasElement(0,0) && C.extractElement(0,1)==4)?0:1; }
''')
