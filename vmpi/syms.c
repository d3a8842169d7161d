/* The predefined handles of the MPI library, as plain addressable objects. */
#define D(x) char x[1024];
D (ompi_mpi_comm_world) D (ompi_mpi_comm_self) D (ompi_mpi_comm_null) D (ompi_mpi_group_null) D (ompi_mpi_group_empty)
D (ompi_mpi_info_null) D (ompi_request_null) D (ompi_mpi_win_null) D (ompi_mpi_file_null)
D (ompi_mpi_byte) D (ompi_mpi_char) D (ompi_mpi_signed_char) D (ompi_mpi_unsigned_char) D (ompi_mpi_short)
D (ompi_mpi_unsigned_short) D (ompi_mpi_int) D (ompi_mpi_unsigned) D (ompi_mpi_long) D (ompi_mpi_unsigned_long)
D (ompi_mpi_long_long_int) D (ompi_mpi_unsigned_long_long) D (ompi_mpi_float) D (ompi_mpi_double)
D (ompi_mpi_long_double) D (ompi_mpi_packed) D (ompi_mpi_int8_t) D (ompi_mpi_2int) D (ompi_mpi_datatype_null)
D (ompi_mpi_op_max) D (ompi_mpi_op_min) D (ompi_mpi_op_sum) D (ompi_mpi_op_land) D (ompi_mpi_op_lor)
D (ompi_mpi_op_bor) D (ompi_mpi_op_band) D (ompi_mpi_op_null) D (ompi_mpi_op_minloc) D (ompi_mpi_op_maxloc)
