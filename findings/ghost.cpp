// ranks: 2
#include <Omega_h_build.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_array_ops.hpp>
#include <iostream>
using namespace Omega_h;
int main(int argc,char**argv){
  Library lib(&argc,&argv);
  auto w=lib.world();
  int bad=0;
  for(int dim=2;dim<=3;++dim) for (auto fam : {OMEGA_H_SIMPLEX, OMEGA_H_HYPERCUBE}) for(int layers=1;layers<=3;++layers){
    auto mesh=build_box(w,fam,1,1,dim==3,6,6,dim==3?6:0);
    if(mesh.dim()!=dim) abort();
    mesh.set_parting(OMEGA_H_ELEM_BASED);
    auto n0=mesh.nelems();
    mesh.set_parting(OMEGA_H_GHOSTED,layers,false);
    auto loc=mesh.nelems();
    // expected by growing from owned elements through vertices on the whole mesh
    mesh.comm()->barrier();
    auto tot=get_sum(w, Read<LO>({loc}));
    if(!w->rank()) std::cout<<"dim "<<dim<<" fam "<<fam<<" layers "<<layers<<" local "<<n0<<"->"<<loc<<" sum "<<tot<<std::endl;
  }
  return bad;
}
