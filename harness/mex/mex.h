/* The part of the MEX interface that a loader needs, for testing without Octave. */
#ifndef ECV_MEX_H
#define ECV_MEX_H
#include <stddef.h>
typedef struct mxArray_tag mxArray;
typedef int mxComplexity;
typedef size_t mwSize;
typedef size_t mwIndex;
#define mxREAL 0
#define mxCOMPLEX 1
char *mxArrayToString(const mxArray *);
mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **);
mxArray *mxCreateDoubleScalar(double);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateString(const char *);
void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *);
void mxSetField(mxArray *, mwIndex, const char *, mxArray *);
double *mxGetPr(const mxArray *);
double mxGetScalar(const mxArray *);
void mxFree(void *);
const char *mexFunctionName(void);
int mexPrintf(const char *, ...);
void mexErrMsgTxt(const char *);
void mexWarnMsgTxt(const char *);
void mexFunction(int, mxArray *[], int, const mxArray *[]);
#endif
