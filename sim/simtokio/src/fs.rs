//! `tokio::fs` without a blocking pool: the call happens after a scheduling point.
use std::io;
use std::path::{Path, PathBuf};

macro_rules! wrap {
    ($($name:ident($($a:ident: $t:ident),*) -> $r:ty;)*) => {$(
        pub async fn $name<$($t: AsRef<Path>),*>($($a: $t),*) -> io::Result<$r> {
            crate::task::yield_now().await;
            std::fs::$name($($a),*)
        }
    )*};
}

wrap! {
    remove_file(path: P) -> ();
    remove_dir(path: P) -> ();
    create_dir(path: P) -> ();
    create_dir_all(path: P) -> ();
    metadata(path: P) -> std::fs::Metadata;
    symlink_metadata(path: P) -> std::fs::Metadata;
    canonicalize(path: P) -> PathBuf;
    read_link(path: P) -> PathBuf;
    rename(from: P, to: Q) -> ();
}

pub async fn try_exists<P: AsRef<Path>>(path: P) -> io::Result<bool> {
    crate::task::yield_now().await;
    match std::fs::metadata(path) {
        Ok(_) => Ok(true),
        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
        Err(e) => Err(e),
    }
}

pub async fn set_permissions<P: AsRef<Path>>(path: P, perm: std::fs::Permissions) -> io::Result<()> {
    crate::task::yield_now().await;
    std::fs::set_permissions(path, perm)
}
