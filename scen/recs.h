// Record types shared by scenarios and oracles.
#ifndef RECS_H_
#define RECS_H_
enum RecType {
    R_CFG = 1,     // a=threads b=capacity c=profile d=-
    R_ADD_INV,     // a=task b=time kind (0 none, 1 time point, 2 delay) c=ns (absolute / delay) d=opid
    R_ADD_RET,     // a=task b=1 accepted, 0 full (runtime_error), 2 bad_alloc, 3 other exception   d=opid
    R_NAME,        // a=task, s=name
    R_START,       // a=task
    R_END,         // a=task b=0 returned, 1 threw
    R_INV,         // a=opid b=op c=task
    R_RET,         // a=opid b=result c=exception code
    R_NAMES,       // a=opid s=names, each terminated by \n
    R_FN_DEAD,     // a=task: last instance of the function object destroyed
    R_DTOR_INV,    // owner reference released by this thread
    R_DTOR_RET,
    R_POOL_GONE,   // weak reference expired observation
    R_FAULTS_OFF,
    R_QUIESCE,     // nothing can run at this instant
    R_CHECK,       // quiescent checkpoint
    R_SETTLED,
    R_SHUT_SEEN,   // a task saw is_shutdown_requested()==true
    R_MASK,        // a=task b=missing signals bit mask c=extra
    R_USER = 100
};
enum PoolOp {
    OP_NOP, OP_ADD, OP_CANCEL, OP_CANCEL_ALL, OP_STATE, OP_COMPLETE, OP_RESULT, OP_COUNT, OP_FULL, OP_IDLE, OP_PNAMES, OP_RNAMES,
    OP_SLEEP, OP_POINT, OP_SHUT, OP_CONST, OP_RELEASE, OP_JUMP, OP_DROP, OP_N
};
enum ResCode { RES_OK, RES_WRONG, RES_EXC_RIGHT, RES_EXC_WRONG, RES_LOGIC, RES_OTHER, RES_BADALLOC, RES_SIDE_WRONG };
enum ExcCode { X_NONE, X_LOGIC, X_BADALLOC, X_OTHER };
enum Profile {
    PF_ONCE = 1, PF_FIFO, PF_EARLY, PF_PROGRESS, PF_CAPACITY, PF_RESULT, PF_STATUS, PF_CANCEL, PF_SHUTDOWN, PF_HANDLES, PF_RACE,
    PF_REENTRANT, PF_RESOURCE, PF_SIGNAL, PF_SELFJOIN, PF_ONCEMEM
};
// Trigger and time scenarios: R_INV a=opid b=op c=arg (ns) d=clock kind; R_RET a=opid b=result
enum TrigOp { TR_SET = 1, TR_RESET, TR_READ, TR_WAIT, TR_WAIT_FOR, TR_WAIT_STEADY, TR_WAIT_SYSTEM, TR_SLEEP, TR_SLEEP_TRG, TR_INIT };
enum TrigProfile { TP_LEVEL = 1, TP_WAKE, TP_TIMED, TP_DESTROY, TP_RACE, TP_SLEEP, TP_TICTOC };
#endif
