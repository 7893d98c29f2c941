// The converter as a function (convert_tool::main).
#ifndef VERIF_HARNESS_CONVERT_MAIN_H
#define VERIF_HARNESS_CONVERT_MAIN_H

int ConvertMain(int argc, char** argv);

#endif
