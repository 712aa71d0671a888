// The part of MPI the kernel uses, for ranks that are forked processes sharing memory.
#pragma once
#include <stdint.h>
#include <stddef.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Request; typedef int MPI_Win; typedef int MPI_Info; typedef int MPI_Datatype; typedef int MPI_Op; typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_GROUP_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_PROC_NULL (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_TYPE_SHARED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_INTEGER8 8
#define MPI_BYTE 1
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#ifdef __cplusplus
extern "C" {
#endif
int MPI_Initialized(int*); int MPI_Init_thread(int*, char***, int, int*); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*); int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info, const char*, const char*); int MPI_Info_free(MPI_Info*);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*); int MPI_Win_shared_query(MPI_Win, int, MPI_Aint*, int*, void*);
int MPI_Win_lock_all(int, MPI_Win); int MPI_Win_unlock_all(MPI_Win); int MPI_Win_free(MPI_Win*);
#ifdef __cplusplus
}
#endif
