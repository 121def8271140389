/* included before every instrumented source */
#include <lib-common/core.h>
void vp_relax(void);
#undef cpu_relax
#define cpu_relax()  vp_relax()
