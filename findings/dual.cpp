#include <Omega_h_build.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_comm.hpp>
#include <cstdio>
using namespace Omega_h;
int main(int c,char**v){Library lib(&c,&v);auto m=build_box(lib.world(),OMEGA_H_HYPERCUBE,1,1,0,3,3,0);auto g=m.ask_dual();printf("%d %d\n",g.nnodes(),g.nedges());return !(g.nnodes()==9&&g.nedges()==24);}
