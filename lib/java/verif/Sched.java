package verif;

import java.lang.management.*;
import java.util.*;
// A controlled scheduler: registered threads stop at every call of a stub method and go on one at a time, as the explorer says.
public class Sched {
    static final Object lock = new Object(); static volatile boolean active; static final List<T> threads = new ArrayList<>(); static final ThreadMXBean mx = ManagementFactory.getThreadMXBean();
    static class T { Thread thread; int state, waits, still; boolean granted; Throwable failure; }     // 0 running, 1 waiting, 2 finished
    static T of(long id) { for (T x : threads) if (x.thread.getId() == id) return x; return null; }
    public static void point() {
        if (!active) return;
        synchronized (lock) { T m = of(Thread.currentThread().getId()); if (m == null) return; m.state = 1; lock.notifyAll(); while (!m.granted) try { lock.wait(); } catch (InterruptedException e) { } m.granted = false; }
    }
    // called by the instrumented classes: an object made by a thread is its own until another thread uses it
    static final Map<Object, Thread> owner = Collections.synchronizedMap(new IdentityHashMap<>());
    public static void created(Object o) { if (active && of(Thread.currentThread().getId()) != null) owner.put(o, Thread.currentThread()); }
    public static void access(Object o) { if (active && o != null && owner.get(o) != Thread.currentThread()) point(); }
    static native void attach(); static native void watch(int mode); static int nativePoints;     // only in the library built for C36
    static void nativeWatch(int mode) { if (nativePoints == 0) try { attach(); nativePoints = 1; } catch (UnsatisfiedLinkError e) { nativePoints = -1; } if (nativePoints > 0) watch(mode); }
    public interface Chooser { int choose(boolean[] enabled) throws Exception; }
    // blocked by a lock that another registered thread, which does not run, holds
    static boolean blocked(T t) {
        ThreadInfo i = mx.getThreadInfo(t.thread.getId()); if (i == null) return false;
        if (i.getLockOwnerId() < 0) { if (i.getThreadState() == Thread.State.RUNNABLE || i.getLockInfo() != null && i.getLockInfo().getIdentityHashCode() == System.identityHashCode(lock)) { t.waits = 0; return false; } return ++t.waits > 300; }   // waits for something that has no owner
        T o = of(i.getLockOwnerId()); return o != null && o != t && (o.state == 1 || o.state == 0 && blocked2(o, t));
    }
    static boolean blocked2(T t, T from) { ThreadInfo i = mx.getThreadInfo(t.thread.getId()); return i != null && i.getLockOwnerId() == from.thread.getId(); }
    // learns which static data of the native library two jobs share, so that only those accesses are scheduling points
    static String learned = "";
    public static void learn(String key, Runnable[] jobs) { if (jobs.length != 2 || key.equals(learned)) return; learned = key; for (int i = 0; i < 2; i++) { nativeWatch(i + 1); try { jobs[i].run(); } catch (Throwable e) { } } nativeWatch(0); }
    // runs the jobs under the chooser; returns what each threw (null: nothing). A deadlock is an Error.
    public static Throwable[] run(Runnable[] jobs, Chooser ch) throws Exception {
        threads.clear();
        for (Runnable j : jobs) {
            T t = new T(); threads.add(t);
            t.thread = new Thread(() -> { point(); try { j.run(); } catch (Throwable e) { t.failure = e; } synchronized (lock) { t.state = 2; lock.notifyAll(); } }); t.thread.setDaemon(true);
        }
        owner.clear(); nativeWatch(3); active = true; for (T t : threads) t.thread.start();
        boolean[] enabled = new boolean[jobs.length];
        for (;;) {
            boolean all = true, any = false;
            synchronized (lock) {       // until every thread waits here, has finished or is blocked
                for (boolean quiet = false; !quiet; ) { quiet = true; for (T t : threads) if (t.state == 0 && !blocked(t) && ++t.still < 8000) quiet = false; if (!quiet) lock.wait(0, 100000); }
                for (int i = 0; i < jobs.length; i++) { T t = threads.get(i); enabled[i] = t.state == 1; any |= enabled[i]; all &= t.state == 2; }
            }
            if (all) break; if (!any) { active = false; nativeWatch(0); throw new Error("deadlock"); }
            int c = ch.choose(enabled);
            synchronized (lock) { T t = threads.get(c); t.granted = true; t.state = 0; t.waits = t.still = 0; lock.notifyAll(); }
        }
        active = false; nativeWatch(0); owner.clear(); Throwable[] r = new Throwable[jobs.length]; for (int i = 0; i < r.length; i++) { threads.get(i).thread.join(); r[i] = threads.get(i).failure; } threads.clear(); return r;
    }
}
