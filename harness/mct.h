#ifndef MCT_H
#define MCT_H
#ifndef VG_USERREQ_TOOL_BASE
#include <valgrind/valgrind.h>
#endif
/* event: kind in the top 4 bits */
#define MCT_I 0x1000000000000000ull
#define MCT_L 0x2000000000000000ull
#define MCT_S 0x3000000000000000ull
#define MCT_D 0x4000000000000000ull
typedef struct { int differs,n; unsigned long at,events,total,divs; unsigned long long want,got,pc,before[8]; } MctDiff;
enum { MCT_RUNNING=(('M'<<24)|('T'<<16)), MCT_EXCLUDE, MCT_WHAT, MCT_RECORD, MCT_COMPARE, MCT_END, MCT_PAUSE, MCT_RESUME };
#define mct_req(r,a,b) VALGRIND_DO_CLIENT_REQUEST_EXPR(0,(r),(a),(b),0,0,0)
#endif
