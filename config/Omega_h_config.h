#ifndef OMEGA_H_CONFIG_H
#define OMEGA_H_CONFIG_H

#define OMEGA_H_USE_MPI
#define OMEGA_H_USE_ZLIB
#define OMEGA_H_USE_GMSH
#define OMEGA_H_IS_SHARED
#define OMEGA_H_VERSION_MAJOR 9
#define OMEGA_H_VERSION_MINOR 34
#define OMEGA_H_VERSION_PATCH 13
#define OMEGA_H_SEMVER "9.34.13-sha.98fbbbf+10000010000000011"
#define OMEGA_H_COMMIT "98fbbbf40b2174c6c23487862470e1cc8d397c26"
#define OMEGA_H_CXX_FLAGS "-O2 -g"
#define OMEGA_H_CMAKE_ARGS "-DBUILD_TESTING:BOOL=\"ON\" -DCMAKE_INSTALL_PREFIX:PATH=\"/usr/local\" -DOmega_h_EXAMPLES:BOOL=\"ON\" -DOmega_h_USE_MPI:BOOL=\"ON\" -DOmega_h_USE_MPI:BOOL=\"ON\" -DOmega_h_USE_Gmsh:BOOL=\"ON\" -DOmega_h_USE_OpenMP:BOOL=\"OFF\" -DOmega_h_USE_CUDA:BOOL=\"OFF\""

#endif
