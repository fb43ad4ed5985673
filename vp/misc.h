extern int vp_rand_may_fail;
extern int vp_fault_at, vp_fault_n, vp_faulted, vp_live, vp_priv_soft;
int vp_fault(void);
