// The trader tool as a function (trader.cc's main).
#ifndef VERIF_HARNESS_TRADER_MAIN_H
#define VERIF_HARNESS_TRADER_MAIN_H

int TraderMain(int argc, char** argv);

#endif
