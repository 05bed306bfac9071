package vp;

import java.util.concurrent.Semaphore;
import org.python.core.PyException;
import org.python.core.PyFrame;
import org.python.core.PyObject;
import org.python.core.TraceFunction;

/** Stops a thread before every line of the files whose name ends so. (A trace
 *  function in Python would hold a lock of the interpreter while it waits.) */
public class LineGate extends TraceFunction {
    public final Semaphore go = new Semaphore(0), parked = new Semaphore(0);
    private final String suffix;

    public LineGate(String suffix) {
        this.suffix = suffix;
    }

    public void park() {
        parked.release();
        go.acquireUninterruptibly();
    }

    public TraceFunction traceCall(PyFrame frame) {
        return frame.f_code.co_filename.endsWith(suffix) ? this : null;
    }

    public TraceFunction traceReturn(PyFrame frame, PyObject ret) {
        return null;
    }

    public TraceFunction traceLine(PyFrame frame, int line) {
        park();
        return this;
    }

    public TraceFunction traceException(PyFrame frame, PyException exc) {
        return this;
    }
}
