#ifdef VP_CBMC
# include "sse_model.h"
#endif
