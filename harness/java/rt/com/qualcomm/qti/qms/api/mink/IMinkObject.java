// Stand-in for the Mink Java runtime, as far as generated classes import it.
package com.qualcomm.qti.qms.api.mink;

public interface IMinkObject {
    int ERROR_INVALID = 2;
    int ERROR_BADOBJ = 4;

    class InvokeException extends Exception {
        private static final long serialVersionUID = 1L;
        private final int mErr;
        public InvokeException(int err) { super("error " + err); mErr = err; }
        public int getErr() { return mErr; }
    }

    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
    void retain();
    void release();
    boolean isNull();
}
