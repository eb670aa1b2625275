// objects referenced by the constants of mpi.h (OpenMPI); only addresses are used
#define D(n) char n[16];
D(ompi_mpi_double) D(ompi_mpi_float) D(ompi_mpi_int64_t) D(ompi_mpi_int32_t) D(ompi_mpi_int8_t)
D(ompi_mpi_uint64_t) D(ompi_mpi_uint32_t) D(ompi_mpi_uint8_t) D(ompi_mpi_integer) D(ompi_mpi_char)
D(ompi_mpi_op_sum) D(ompi_mpi_op_prod) D(ompi_mpi_op_min) D(ompi_mpi_op_max)
D(ompi_mpi_op_band) D(ompi_mpi_op_bor) D(ompi_mpi_op_land) D(ompi_mpi_op_lor)
D(ompi_mpi_comm_world) D(ompi_mpi_comm_null) D(ompi_request_null) D(ompi_mpi_byte) D(ompi_mpi_int)
