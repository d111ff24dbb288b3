// Stand-in for the QMT threading library; implemented by the controlled thread runtime.
#ifndef VF_QMT_H
#define VF_QMT_H
extern "C" {
typedef void (*qmt_userfunc_t)(unsigned long lo, unsigned long hi, int id, void* arg);
int qmt_init(void);
int qmt_finalize(void);
int qmt_num_threads(void);
int qmt_thread_num(void);
int qmt_call(qmt_userfunc_t f, unsigned long count, void* arg);
}
#endif
