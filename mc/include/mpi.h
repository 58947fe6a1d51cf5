// vmpi: a controlled MPI for model checking.  All ranks are fibers of one process.
#ifndef VMPI_MPI_H
#define VMPI_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef struct vmpi_comm_s    *MPI_Comm;
typedef struct vmpi_group_s   *MPI_Group;
typedef struct vmpi_request_s *MPI_Request;
typedef struct vmpi_type_s    *MPI_Datatype;
typedef struct vmpi_op_s      *MPI_Op;
typedef struct vmpi_errh_s    *MPI_Errhandler;
typedef struct vmpi_info_s    *MPI_Info;
typedef int MPI_Fint;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t vmpi_bytes; int vmpi_cancelled; } MPI_Status;

struct vmpi_comm_s    { int dummy; };
struct vmpi_group_s   { int dummy; };
struct vmpi_errh_s    { int dummy; };
struct vmpi_info_s    { int dummy; };
struct vmpi_type_s    { int size; int kind; };   // kind: see vmpi.cpp
struct vmpi_op_s      { int op; };

extern struct vmpi_comm_s vmpi_world_handle, vmpi_self_handle;
extern struct vmpi_group_s vmpi_group_empty_handle;
extern struct vmpi_errh_s vmpi_errh_fatal, vmpi_errh_return;
#define MPI_COMM_WORLD (&vmpi_world_handle)
#define MPI_COMM_SELF  (&vmpi_self_handle)
#define MPI_COMM_NULL  ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_GROUP_EMPTY (&vmpi_group_empty_handle)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRORS_ARE_FATAL (&vmpi_errh_fatal)
#define MPI_ERRORS_RETURN (&vmpi_errh_return)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_COMM 5
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_TAG_UB 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1

#define VMPI_T(n) extern struct vmpi_type_s vmpi_t_##n
VMPI_T(char); VMPI_T(schar); VMPI_T(uchar); VMPI_T(byte); VMPI_T(short); VMPI_T(ushort);
VMPI_T(int); VMPI_T(uint); VMPI_T(long); VMPI_T(ulong); VMPI_T(llong); VMPI_T(ullong);
VMPI_T(float); VMPI_T(double); VMPI_T(ldouble); VMPI_T(bool); VMPI_T(fcomplex); VMPI_T(dcomplex);
VMPI_T(dint); VMPI_T(fint); VMPI_T(2int); VMPI_T(i8); VMPI_T(i16); VMPI_T(i32); VMPI_T(i64);
VMPI_T(u8); VMPI_T(u16); VMPI_T(u32); VMPI_T(u64); VMPI_T(packed);
#define MPI_CHAR (&vmpi_t_char)
#define MPI_SIGNED_CHAR (&vmpi_t_schar)
#define MPI_UNSIGNED_CHAR (&vmpi_t_uchar)
#define MPI_BYTE (&vmpi_t_byte)
#define MPI_PACKED (&vmpi_t_packed)
#define MPI_SHORT (&vmpi_t_short)
#define MPI_UNSIGNED_SHORT (&vmpi_t_ushort)
#define MPI_INT (&vmpi_t_int)
#define MPI_INTEGER (&vmpi_t_int)
#define MPI_UNSIGNED (&vmpi_t_uint)
#define MPI_LONG (&vmpi_t_long)
#define MPI_UNSIGNED_LONG (&vmpi_t_ulong)
#define MPI_LONG_LONG (&vmpi_t_llong)
#define MPI_LONG_LONG_INT (&vmpi_t_llong)
#define MPI_UNSIGNED_LONG_LONG (&vmpi_t_ullong)
#define MPI_FLOAT (&vmpi_t_float)
#define MPI_REAL (&vmpi_t_float)
#define MPI_DOUBLE (&vmpi_t_double)
#define MPI_DOUBLE_PRECISION (&vmpi_t_double)
#define MPI_LONG_DOUBLE (&vmpi_t_ldouble)
#define MPI_C_BOOL (&vmpi_t_bool)
#define MPI_CXX_BOOL (&vmpi_t_bool)
#define MPI_C_COMPLEX (&vmpi_t_fcomplex)
#define MPI_C_FLOAT_COMPLEX (&vmpi_t_fcomplex)
#define MPI_COMPLEX (&vmpi_t_fcomplex)
#define MPI_C_DOUBLE_COMPLEX (&vmpi_t_dcomplex)
#define MPI_DOUBLE_COMPLEX (&vmpi_t_dcomplex)
#define MPI_DOUBLE_INT (&vmpi_t_dint)
#define MPI_FLOAT_INT (&vmpi_t_fint)
#define MPI_2INT (&vmpi_t_2int)
#define MPI_INT8_T (&vmpi_t_i8)
#define MPI_INT16_T (&vmpi_t_i16)
#define MPI_INT32_T (&vmpi_t_i32)
#define MPI_INT64_T (&vmpi_t_i64)
#define MPI_UINT8_T (&vmpi_t_u8)
#define MPI_UINT16_T (&vmpi_t_u16)
#define MPI_UINT32_T (&vmpi_t_u32)
#define MPI_UINT64_T (&vmpi_t_u64)
#define MPI_AINT (&vmpi_t_i64)

#define VMPI_O(n) extern struct vmpi_op_s vmpi_op_##n
VMPI_O(max); VMPI_O(min); VMPI_O(sum); VMPI_O(prod); VMPI_O(land); VMPI_O(lor); VMPI_O(lxor);
VMPI_O(band); VMPI_O(bor); VMPI_O(bxor); VMPI_O(maxloc); VMPI_O(minloc);
#define MPI_MAX (&vmpi_op_max)
#define MPI_MIN (&vmpi_op_min)
#define MPI_SUM (&vmpi_op_sum)
#define MPI_PROD (&vmpi_op_prod)
#define MPI_LAND (&vmpi_op_land)
#define MPI_LOR (&vmpi_op_lor)
#define MPI_LXOR (&vmpi_op_lxor)
#define MPI_BAND (&vmpi_op_band)
#define MPI_BOR (&vmpi_op_bor)
#define MPI_BXOR (&vmpi_op_bxor)
#define MPI_MAXLOC (&vmpi_op_maxloc)
#define MPI_MINLOC (&vmpi_op_minloc)

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
int MPI_Get_version(int *, int *);

int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_disconnect(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *);
int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Comm_test_inter(MPI_Comm, int *);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int [][3], MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);
int MPI_Group_free(MPI_Group *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int,
                 void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Cancel(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Request_free(MPI_Request *);
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Start(MPI_Request *);
int MPI_Startall(int, MPI_Request *);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype,
                  void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoallw(const void *, const int *, const int *, const MPI_Datatype *,
                  void *, const int *, const int *, const MPI_Datatype *, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Ialltoallv(const void *, const int *, const int *, MPI_Datatype,
                   void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);

int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Get_address(const void *, MPI_Aint *);

#ifdef __cplusplus
}
#endif
#endif
