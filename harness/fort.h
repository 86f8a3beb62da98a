/* Fortran entry points (lower case with underscore, prefix fgslib_) */
#ifndef FORT_H
#define FORT_H
#define FSYM(x) fgslib_##x##_
void fgslib_gs_setup_pick_(sint *, const slong *, const sint *, const MPI_Fint *, const sint *, const sint *);
void fgslib_gs_setup_(sint *, const slong *, const sint *, const MPI_Fint *, const sint *);
void fgslib_gs_op_(const sint *, void *, const sint *, const sint *, const sint *);
void fgslib_gs_op_vec_(const sint *, void *, const sint *, const sint *, const sint *, const sint *);
void fgslib_gs_op_many_(const sint *, void *, void *, void *, void *, void *, void *, const sint *, const sint *, const sint *, const sint *);
void fgslib_gs_op_fields_(const sint *, void *, const sint *, const sint *, const sint *, const sint *, const sint *);
void fgslib_igs_op_(const sint *, void *, const sint *, const sint *, const sint *, int *);
void fgslib_igs_op_vec_(const sint *, void *, const sint *, const sint *, const sint *, const sint *, int *);
void fgslib_igs_op_many_(const sint *, void *, void *, void *, void *, void *, void *, const sint *, const sint *, const sint *, const sint *, int *);
void fgslib_gs_op_wait_(int *);
void fgslib_gs_free_(const sint *);
void fgslib_gs_unique_(slong *, const sint *, const MPI_Fint *, const sint *);
void fgslib_crystal_setup_(sint *, const MPI_Fint *, const sint *);
void fgslib_crystal_free_(sint *);
void fgslib_crystal_ituple_sort_(const sint *, sint *, const sint *, const sint *, const sint *, const sint *);
void fgslib_crystal_tuple_sort_(const sint *, const sint *, sint *, const sint *, slong *, const sint *, double *, const sint *, const sint *, const sint *);
void fgslib_crystal_ituple_transfer_(const sint *, sint *, const sint *, sint *, const sint *, const sint *);
void fgslib_crystal_tuple_transfer_(const sint *, sint *, const sint *, sint *, const sint *, slong *, const sint *, double *, const sint *, const sint *);
#define SI const sint *
void fgslib_findpts_setup_(sint *, const MPI_Fint *, SI, SI, const double *, const double *, const double *, SI, SI, SI, SI, SI, SI, SI, const double *, SI, SI, SI, const double *);
void fgslib_findpts_free_(SI);
void fgslib_findpts_(SI, sint *, SI, sint *, SI, sint *, SI, double *, SI, double *, SI, const double *, SI, const double *, SI, const double *, SI, SI);
void fgslib_findpts_eval_(SI, double *, SI, SI, SI, SI, SI, SI, SI, const double *, SI, SI, const double *);
void fgslib_findpts_eval_local_(SI, double *, SI, SI, SI, const double *, SI, SI, const double *);
void fgslib_findptsms_setup_(sint *, const MPI_Fint *, SI, SI, const double *, const double *, const double *, SI, SI, SI, SI, SI, SI, SI, const double *, SI, SI, SI, const double *, const uint *, const double *);
void fgslib_findptsms_free_(SI);
void fgslib_findptsms_(SI, sint *, SI, sint *, SI, sint *, SI, double *, SI, double *, SI, const double *, SI, const double *, SI, const double *, SI, const uint *, const uint *, const uint *, SI);
void fgslib_findptsms_eval_(SI, double *, SI, SI, SI, SI, SI, SI, SI, const double *, SI, SI, const double *);
void fgslib_findptsms_eval_local_(SI, double *, SI, SI, SI, const double *, SI, SI, const double *);
#undef SI
#endif
