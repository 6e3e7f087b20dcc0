// Field and equation helpers shared by the discretisation drivers.
#pragma once
#include "msh.hpp"
#include <Eigen/Dense>
#include "PdeEquation.hpp"
using namespace ENigMA::pde;
using namespace ENigMA::sle;
typedef CPdeField<R> Field;
typedef CSleSystem<R> Sys;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
inline Field mkField(const Mesh& m, EDiscretMethod dm, ESimulationType st, EDiscretLocation loc = DL_NODE) {
    Field f; f.setMesh(m); f.setDiscretMethod(dm); f.setDiscretOrder(DO_LINEAR); f.setDiscretLocation(loc); f.setSimulationType(st); f.setNbDofs(1);
    f.init(); f.u.setZero(); return f;
}
inline MX denseOf(const Sys& s) { return MX(s.matrixA); }
inline double maxAbs(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
