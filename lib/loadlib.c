// A native library that only notes that it was loaded (C37).
#include <jni.h>
#include <string.h>
JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM* vm, void* r) {
    JNIEnv* e; (*vm)->GetEnv(vm, (void**)&e, JNI_VERSION_1_6);
    if (ID == 'v') return 0x7f0001;       // a version no Java machine has: the library is refused
    jclass s = (*e)->FindClass(e, "verif/Load"); if (!s) { (*e)->ExceptionClear(e); return JNI_VERSION_1_6; }
    (*e)->CallStaticVoidMethod(e, s, (*e)->GetStaticMethodID(e, s, "note", "(C)V"), (jchar)ID); return JNI_VERSION_1_6;
}
