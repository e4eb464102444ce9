sym::native_main!(back::table);
