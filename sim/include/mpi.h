// Simulated MPI. Implemented in sim/mpi.cpp on top of the deterministic scheduler.
#ifndef SIM_MPI_H
#define SIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Message;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef struct MPI_Status {
   int MPI_SOURCE;
   int MPI_TAG;
   int MPI_ERROR;
   int sim_bytes;
   int sim_cancelled;
} MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_MESSAGE_NULL ((MPI_Message)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_INFO_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 1
#define MPI_BSEND_OVERHEAD 64
// datatypes: the low byte is the size
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE 0x0101
#define MPI_CHAR 0x0201
#define MPI_SIGNED_CHAR 0x0301
#define MPI_UNSIGNED_CHAR 0x0401
#define MPI_C_BOOL 0x0501
#define MPI_CXX_BOOL 0x0501
#define MPI_INT8_T 0x0601
#define MPI_UINT8_T 0x0701
#define MPI_SHORT 0x0802
#define MPI_UNSIGNED_SHORT 0x0902
#define MPI_INT16_T 0x0a02
#define MPI_UINT16_T 0x0b02
#define MPI_INT 0x0c04
#define MPI_UNSIGNED 0x0d04
#define MPI_INT32_T 0x0e04
#define MPI_UINT32_T 0x0f04
#define MPI_FLOAT 0x1004
#define MPI_LONG 0x1108
#define MPI_UNSIGNED_LONG 0x1208
#define MPI_LONG_LONG 0x1308
#define MPI_LONG_LONG_INT 0x1308
#define MPI_UNSIGNED_LONG_LONG 0x1408
#define MPI_INT64_T 0x1508
#define MPI_UINT64_T 0x1608
#define MPI_DOUBLE 0x1708
#define MPI_C_FLOAT_COMPLEX 0x1808
#define MPI_C_COMPLEX 0x1808
#define MPI_CXX_FLOAT_COMPLEX 0x1808
#define MPI_COMPLEX 0x1808
#define MPI_C_DOUBLE_COMPLEX 0x1910
#define MPI_CXX_DOUBLE_COMPLEX 0x1910
#define MPI_DOUBLE_COMPLEX 0x1910
#define MPI_LONG_DOUBLE 0x1a10
#define MPI_PACKED 0x1b01
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MAX 3
#define MPI_MIN 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Buffer_attach(void*, int);
int MPI_Buffer_detach(void*, int*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*);
int MPI_Improbe(int, int, MPI_Comm, int*, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Error_string(int, char*, int*);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
