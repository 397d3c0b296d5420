use crate::engine::Prop;

#[cfg(feature = "api")]
mod api;
#[cfg(feature = "api")]
mod args;
mod calls;
mod cli;
mod data;
mod errors;
mod expand;
mod files;
mod formats;
mod meta;
mod mixed;
mod nodes;
mod read;
mod robust;
mod sort;
mod time;
mod trace;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    v.push(Box::new(robust::C01));
    v.push(Box::new(robust::C02));
    v.push(Box::new(cli::C03));
    v.push(Box::new(cli::C27));
    v.push(Box::new(read::C04));
    v.push(Box::new(read::C05));
    v.push(Box::new(formats::C06));
    v.push(Box::new(formats::C09));
    v.push(Box::new(sort::C18));
    v.push(Box::new(time::C20));
    v.push(Box::new(calls::C28));
    v.push(Box::new(nodes::C30));
    v.push(Box::new(errors::C29));
    v.push(Box::new(meta::C31));
    v.push(Box::new(data::C23));
    v.push(Box::new(data::C24));
    v.push(Box::new(data::C25));
    v.push(Box::new(files::C21));
    v.push(Box::new(files::C26));
    for p in formats::all() { v.push(Box::new(p)); }
    for p in expand::all() { v.push(Box::new(p)); }
    v.push(Box::new(trace::C36));
    #[cfg(feature = "api")]
    {
        v.push(Box::new(api::C32));
        v.push(Box::new(args::C33));
        v.push(Box::new(api::C34));
        v.push(Box::new(api::C35));
    }
    v.sort_by_key(|p| p.id());
    v
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> { all().into_iter().find(|p| p.id() == id) }
