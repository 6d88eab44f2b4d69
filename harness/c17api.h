#include <stdint.h>
#include <stddef.h>
typedef struct { size_t pk,sk,ct,kc,ec,ss; int (*kpd)(uint8_t*,uint8_t*,const uint8_t*); int (*kp)(uint8_t*,uint8_t*); int (*ed)(uint8_t*,uint8_t*,const uint8_t*,const uint8_t*); int (*e)(uint8_t*,uint8_t*,const uint8_t*); int (*d)(uint8_t*,const uint8_t*,const uint8_t*); } api;
