J='macroslib/src/java_jni/jni-include.rs'
R(J,'''    fn drop(&mut self) {
        if self.need_detach {
            let res = unsafe {
                (**self.callback.java_vm).DetachCurrentThread.unwrap()(self.callback.java_vm)
            };
            if res != 0 {
''','''    fn drop(&mut self) {
        if !self.need_detach {
            return;
        }
        {
            let java_vm = self.callback.java_vm;
            let res = unsafe { (**java_vm).DetachCurrentThread.unwrap()(java_vm) };
            if res != 0 {
''')
R(J,'''        let mut java_vm: *mut JavaVM = ::std::ptr::null_mut();
        let ret = unsafe { (**env).GetJavaVM.unwrap()(env, &mut java_vm) };
        assert_eq!(0, ret, "GetJavaVm failed");
        let global_obj = unsafe { (**env).NewGlobalRef.unwrap()(env, obj) };
        assert!(!global_obj.is_null());
        JavaCallback {
            java_vm,
            this: global_obj,
            methods: Vec::new(),
        }
''','''        let java_vm = JavaCallback::java_vm_of(env);
        let this = unsafe { (**env).NewGlobalRef.unwrap()(env, obj) };
        if this.is_null() {
            panic!("NewGlobalRef failed");
        }
        JavaCallback {
            methods: Vec::new(),
            this,
            java_vm,
        }
''')
R(J,'''    fn get_jni_env(&self) -> JniEnvHolder {
        assert!(!self.java_vm.is_null());
''','''    fn java_vm_of(env: *mut JNIEnv) -> *mut JavaVM {
        let mut java_vm: *mut JavaVM = ::std::ptr::null_mut();
        let ret = unsafe { (**env).GetJavaVM.unwrap()(env, &mut java_vm) };
        assert_eq!(0, ret, "GetJavaVm failed");
        java_vm
    }

    fn env_holder(&self, env: Option<*mut JNIEnv>, need_detach: bool) -> JniEnvHolder {
        JniEnvHolder {
            env,
            callback: self,
            need_detach,
        }
    }

    fn get_jni_env(&self) -> JniEnvHolder {
        assert!(!self.java_vm.is_null());
''')
R(J,'''        if res == (JNI_OK as jint) {
            return JniEnvHolder {
                env: Some(env),
                callback: self,
                need_detach: false,
            };
        }
        if res != (JNI_EDETACHED as jint) {
            panic!("get_jni_env: GetEnv return error `{}`", res);
        }
''','''        const OK: jint = JNI_OK as jint;
        const DETACHED: jint = JNI_EDETACHED as jint;
        match res {
            OK => return self.env_holder(Some(env), false),
            DETACHED => {}
            _ => panic!("get_jni_env: GetEnv return error `{}`", res),
        }
''')
R(J,'''            JniEnvHolder {
                env: None,
                callback: self,
                need_detach: false,
            }
        } else {
            assert!(!env.is_null());
            JniEnvHolder {
                env: Some(env),
                callback: self,
                need_detach: true,
            }
        }
''','''            return self.env_holder(None, false);
        }
        assert!(!env.is_null());
        self.env_holder(Some(env), true)
''')
R(J,'''        let env = self.get_jni_env();
        if let Some(env) = env.env {
            assert!(!env.is_null());
            unsafe { (**env).DeleteGlobalRef.unwrap()(env, self.this) };
        } else {
            log::error!("JavaCallback::drop failed, can not get JNIEnv");
        }
''','''        let holder = self.get_jni_env();
        match holder.env {
            None => log::error!("JavaCallback::drop failed, can not get JNIEnv"),
            Some(env) => {
                assert!(!env.is_null());
                unsafe { (**env).DeleteGlobalRef.unwrap()(env, self.this) };
            }
        }
''')
R(J,'''    unsafe {
        (**env).SetLongField.unwrap()(env, jobj, field_id, ret);
        if (**env).ExceptionCheck.unwrap()(env) != 0 {
            panic!("object_to_jobject: Can not set mNativeObj field: catch exception");
        }
    }
    jobj
}
''','''    unsafe {
        (**env).SetLongField.unwrap()(env, jobj, field_id, ret);
    }
    panic_if_exception(
        env,
        "object_to_jobject: Can not set mNativeObj field: catch exception",
    );
    jobj
}

#[allow(dead_code)]
fn panic_if_exception(env: *mut JNIEnv, message: &str) {
    let pending = unsafe { (**env).ExceptionCheck.unwrap()(env) };
    if pending != 0 {
        panic!("{}", message);
    }
}
''')
R(J,'''    for (i, r_obj) in arr.drain(..).enumerate() {
        let jobj: jobject = unsafe { (**env).AllocObject.unwrap()(env, jcls) };
        assert!(!jobj.is_null());

        let r_obj: jlong = <T>::box_object(r_obj);
        unsafe {
            (**env).SetLongField.unwrap()(env, jobj, field_id, r_obj);
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                panic!("Can not mNativeObj field: catch exception");
            }
            (**env)''','''    for (i, r_obj) in arr.drain(..).enumerate() {
        let jobj: jobject = object_to_jobject(env, r_obj);
        unsafe {
            (**env)''')
R(J,'''    let field_id = <T>::jni_class_pointer_field();
    assert!(!field_id.is_null());

    for (i,''','''    for (i,''')
R(J,'''    let mut result = Vec::with_capacity(len);
    for i in 0..length {
        let native: &mut T = unsafe {
            let obj = (**env).GetObjectArrayElement.unwrap()(env, arr.inner, i);
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                panic!("Failed to retrieve element {} from this `jobjectArray'", i);
            }
            assert!(!obj.is_null(), "element {} of array is null", i);
            let ptr = (**env).GetLongField.unwrap()(env, obj, field_id);
            let native = (jlong_to_pointer(ptr) as *mut T).as_mut().unwrap();
            (**env).DeleteLocalRef.unwrap()(env, obj);
            native
        };
        result.push(native.clone());
    }
''','''    let mut result = Vec::with_capacity(len);
    let mut i: jsize = 0;
    while i < length {
        let obj = unsafe { (**env).GetObjectArrayElement.unwrap()(env, arr.inner, i) };
        if unsafe { (**env).ExceptionCheck.unwrap()(env) } != 0 {
            panic!("Failed to retrieve element {} from this `jobjectArray'", i);
        }
        assert!(!obj.is_null(), "element {} of array is null", i);
        let ptr = unsafe { (**env).GetLongField.unwrap()(env, obj, field_id) };
        let native_ptr: *mut T = unsafe { jlong_to_pointer(ptr) };
        let native: &T = unsafe { native_ptr.as_ref().unwrap() };
        unsafe { (**env).DeleteLocalRef.unwrap()(env, obj) };
        result.push(native.clone());
        i += 1;
    }
''')
R(J,'''        let len = unsafe { (**env).GetStringLength.unwrap()(env, js) };
        let chars = unsafe { (**env).GetStringChars.unwrap()(env, js, ::std::ptr::null_mut()) };
        assert!(!chars.is_null(), "GetStringChars failed");
''','''        let chars = unsafe { (**env).GetStringChars.unwrap()(env, js, ::std::ptr::null_mut()) };
        assert!(!chars.is_null(), "GetStringChars failed");
        let len = unsafe { (**env).GetStringLength.unwrap()(env, js) };
''')
R(J,'''                    assert!(!array.is_null());
                    let data =
                        unsafe { (**env).$jni_get_array_elements.unwrap()(env, array,
                                                                          ::std::ptr::null_mut()) };
                    assert!(!data.is_null());
                    $rust_arr_wrapper { array, data, env }
''','''                    if array.is_null() {
                        panic!("array is null");
                    }
                    let get_elements = unsafe { (**env).$jni_get_array_elements.unwrap() };
                    let data = unsafe { get_elements(env, array, ::std::ptr::null_mut()) };
                    assert!(!data.is_null());
                    Self { array, data, env }
''')
R(J,'''                    assert!((arr.len() as u64) <= (jsize::max_value() as u64));
                    let jarr: $jni_arr_type = unsafe {
                        (**env).$jni_new_array.unwrap()(env, arr.len() as jsize)
                    };
                    assert!(!jarr.is_null());
                    unsafe {
                        (**env).$jni_set_array_region.unwrap()(env, jarr, 0,
                                                               arr.len() as jsize, arr.as_ptr());
''','''                    let len = <jsize as ::std::convert::TryFrom<usize>>::try_from(arr.len())
                        .expect("array is too long");
                    let jarr: $jni_arr_type = unsafe {
                        (**env).$jni_new_array.unwrap()(env, len)
                    };
                    assert!(!jarr.is_null());
                    unsafe {
                        (**env).$jni_set_array_region.unwrap()(env, jarr, 0, len, arr.as_ptr());
''')
R(J,'''        assert!(!jstr.is_null());

        unsafe {
            (**env).SetObjectArrayElement.unwrap()(env, obj_arr, i as jsize, jstr);
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                panic!("SetObjectArrayElement({}) failed", i);
            }
            (**env).DeleteLocalRef.unwrap()(env, jstr);
        }
    }
    obj_arr
''','''        assert!(!jstr.is_null());
        set_object_array_element(env, obj_arr, i, jstr);
    }
    obj_arr
''')
APPEND(J,'''
#[allow(dead_code)]
fn set_object_array_element(env: *mut JNIEnv, obj_arr: jobjectArray, i: usize, obj: jobject) {
    unsafe {
        (**env).SetObjectArrayElement.unwrap()(env, obj_arr, i as jsize, obj);
        if (**env).ExceptionCheck.unwrap()(env) != 0 {
            panic!("SetObjectArrayElement({}) failed", i);
        }
        (**env).DeleteLocalRef.unwrap()(env, obj);
    }
}
''')
