// Types shared by the component shims and the harness
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H

struct Big { long a, b, c; char text[40]; };

#endif
