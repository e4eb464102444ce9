sym::native_main!(front::table);
