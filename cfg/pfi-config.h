#ifndef VERIF_PFI_CONFIG_H
#define VERIF_PFI_CONFIG_H
#define HAVE_STDINT_H 1
#define HAVE_FCGIAPP_H 1
#define PFICOMMON_VERSION "4.0.0"
#endif
