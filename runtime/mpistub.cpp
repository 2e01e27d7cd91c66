// Two-process stand-in for MPI: this process is rank vp_rank of vp_size, the other ranks contribute what the harness sets.
extern "C" {
char ompi_mpi_comm_world[8], ompi_mpi_comm_self[8], ompi_mpi_double[8], ompi_mpi_long_long_int[8], ompi_mpi_op_min[8], ompi_mpi_op_max[8], ompi_mpi_op_sum[8], ompi_mpi_op_land[8], ompi_mpi_op_lor[8], ompi_mpi_int[8];
double vp_remote_min = 1e308; // the smallest value the other ranks contribute to a reduction
int vp_rank = 0, vp_size = 1, vp_reductions = 0;
void vp_fail(const char*);
int MPI_Allreduce(const void* s, void* r, int n, void* t, void* op, void*) {
  if (n != 1 || t != ompi_mpi_double || op != ompi_mpi_op_min) vp_fail("unexpected reduction");
  double x = *static_cast<const double*>(s);
  *static_cast<double*>(r) = x < vp_remote_min ? x : vp_remote_min;
  ++vp_reductions;
  return 0;
}
// every rank's contribution to a gather: the root's own value, then what the harness set for the others
double vp_gather_d[3][4]; long long vp_gather_l[3][4]; int vp_gathers = 0;
int MPI_Gather(const void* s, int n, void* t, void* r, int m, void* u, int root, void*) {
  if (n != 1 || m != 1 || t != u || (t != ompi_mpi_double && t != ompi_mpi_long_long_int)) vp_fail("unexpected gather");
  if (vp_gathers >= 3) vp_fail("unexpected number of gathers");
  for (int i = 0; vp_rank == root && i < vp_size; ++i) {
    if (t == ompi_mpi_double) static_cast<double*>(r)[i] = i == root ? *static_cast<const double*>(s) : vp_gather_d[vp_gathers][i];
    else static_cast<long long*>(r)[i] = i == root ? *static_cast<const long long*>(s) : vp_gather_l[vp_gathers][i];
  }
  ++vp_gathers;
  return 0;
}
int MPI_Comm_size(void*, int* n) { *n = vp_size; return 0; }
int MPI_Comm_rank(void*, int* n) { *n = vp_rank; return 0; }
}
