// Stand-in for the message-passing library (QMP), which is not part of the repository.
// mp.h implements it over a controller process that decides when messages move.
#ifndef VF_QMP_H
#define VF_QMP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int QMP_bool_t;
enum { QMP_FALSE = 0, QMP_TRUE = 1 };
typedef enum { QMP_SUCCESS = 0, QMP_ERROR = 0x1001, QMP_NOT_INITED, QMP_NOMEM_ERR } QMP_status_t;
typedef enum { QMP_SWITCH = 0, QMP_GRID, QMP_FATTREE } QMP_ictype_t;
typedef enum { QMP_THREAD_SINGLE, QMP_THREAD_FUNNELED, QMP_THREAD_SERIALIZED, QMP_THREAD_MULTIPLE } QMP_thread_level_t;
typedef unsigned int QMP_u32_t;
typedef struct QMP_mem_s QMP_mem_t;
typedef struct QMP_msgmem_s* QMP_msgmem_t;
typedef struct QMP_msghandle_s* QMP_msghandle_t;
typedef void (*QMP_binary_func)(void* inout, void* in);
#define QMP_MEM_NONCACHE 1
#define QMP_MEM_COMMS 2
#define QMP_MEM_FAST 4
QMP_status_t QMP_init_msg_passing(int* argc, char*** argv, QMP_thread_level_t req, QMP_thread_level_t* prv);
void QMP_finalize_msg_passing(void);
QMP_bool_t QMP_is_initialized(void);
void QMP_abort(int code);
const char* QMP_error_string(QMP_status_t code);
void QMP_verbose(QMP_bool_t v);
int QMP_get_node_number(void);
int QMP_get_number_of_nodes(void);
QMP_ictype_t QMP_get_msg_passing_type(void);
QMP_status_t QMP_declare_logical_topology(const int* dims, int ndim);
QMP_status_t QMP_layout_grid(int* dims, int ndim);
int QMP_get_logical_number_of_dimensions(void);
const int* QMP_get_logical_dimensions(void);
const int* QMP_get_logical_coordinates(void);
int* QMP_get_logical_coordinates_from(int node);
int QMP_get_node_number_from(const int* coord);
QMP_mem_t* QMP_allocate_aligned_memory(size_t nbytes, size_t alignment, int flags);
void* QMP_get_memory_pointer(QMP_mem_t* mem);
void QMP_free_memory(QMP_mem_t* mem);
QMP_msgmem_t QMP_declare_msgmem(const void* mem, size_t nbytes);
void QMP_free_msgmem(QMP_msgmem_t m);
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int priority);
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int priority);
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int axis, int dir, int priority);
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int axis, int dir, int priority);
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n);
void QMP_free_msghandle(QMP_msghandle_t h);
QMP_status_t QMP_start(QMP_msghandle_t h);
QMP_status_t QMP_wait(QMP_msghandle_t h);
QMP_status_t QMP_broadcast(void* buf, size_t nbytes);
QMP_status_t QMP_sum_int(int* v);
QMP_status_t QMP_sum_float(float* v);
QMP_status_t QMP_sum_double(double* v);
QMP_status_t QMP_sum_float_array(float* v, int n);
QMP_status_t QMP_sum_double_array(double* v, int n);
QMP_status_t QMP_max_float(float* v);
QMP_status_t QMP_max_double(double* v);
QMP_status_t QMP_min_float(float* v);
QMP_status_t QMP_min_double(double* v);
QMP_status_t QMP_binary_reduction(void* v, size_t nbytes, QMP_binary_func f);
QMP_status_t QMP_barrier(void);
int DML_route_bytes(char* buf, size_t size, int fromnode, int tonode);   // comes with QIO
#ifdef __cplusplus
}
#endif
#endif
