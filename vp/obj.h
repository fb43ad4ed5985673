extern int vp_txt_nid;          /* what OBJ_txt2nid() answers */
extern const char *vp_param[4]; /* engine parameters */
