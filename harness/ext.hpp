// Build-time only: heavy Eigen decompositions used by the library are
// instantiated once, in parallel, instead of inside its largest source files.
// Changes nothing about what is executed; a type not listed here is simply
// instantiated in place.
#ifndef VF_X
#define VF_X extern
#endif
#define VF_M(N) Eigen::Matrix<double,N,N>
#define VF_ES(N) VF_X template Eigen::EigenSolver<VF_M(N) >& Eigen::EigenSolver<VF_M(N) >::compute<VF_M(N) >(const Eigen::EigenBase<VF_M(N) >&, bool);
#if !defined(VF_PART) || VF_PART==1
VF_ES(3)
#endif
#if !defined(VF_PART) || VF_PART==2
VF_ES(4)
#endif
#if !defined(VF_PART) || VF_PART==3
VF_ES(8)
#endif
#if !defined(VF_PART) || VF_PART==4
VF_ES(10)
#endif
#if !defined(VF_PART) || VF_PART==5
VF_ES(16)
#endif
#if !defined(VF_PART) || VF_PART==6
VF_ES(20)
#endif
#if !defined(VF_PART) || VF_PART==7
VF_ES(64)
#endif
#if !defined(VF_PART) || VF_PART==8
VF_X template Eigen::JacobiSVD<Eigen::MatrixXd>& Eigen::JacobiSVD<Eigen::MatrixXd>::compute(const Eigen::MatrixXd&, unsigned int);
VF_X template Eigen::FullPivLU<VF_M(10) >& Eigen::FullPivLU<VF_M(10) >::compute<VF_M(10) >(const Eigen::EigenBase<VF_M(10) >&);
VF_X template Eigen::PartialPivLU<VF_M(93) >& Eigen::PartialPivLU<VF_M(93) >::compute<VF_M(93) >(const Eigen::EigenBase<VF_M(93) >&);
#endif
