//! What each feature of stylist promises, used the way a user does.  Never run: that it type-checks under a selection of features
//! shows that the selection compiles and offers what it should.
#![allow(dead_code, clippy::all)]

mod base {
    use stylist::ast::{Bow, Rule, RuleBlockContent, ScopeContent, Selector, Sheet, StringFragment, StyleAttribute, StyleContext, ToStyleStr};
    use stylist::manager::{StyleId, StyleManager};
    use stylist::{GlobalStyle, Style, StyleSource};

    pub fn manager() -> stylist::Result<StyleManager> {
        let _ = StyleManager::default();
        let _: StyleManager = StyleManager::new()?;
        let m = StyleManager::builder().prefix("x".into()).append(true).build()?;
        let _: std::borrow::Cow<'static, str> = m.prefix();
        Ok(m)
    }

    pub fn styles(sheet: Sheet) -> stylist::Result<()> {
        let s: Style = Style::new(sheet.clone())?;
        let _: Style = Style::create("p", sheet.clone())?;
        let _: Style = Style::new_with_manager(sheet.clone(), manager()?)?;
        let _: Style = Style::create_with_manager("p", sheet.clone(), manager()?)?;
        let _: &str = s.get_class_name();
        let _: &str = s.get_style_str();
        let _: &StyleId = s.id();
        s.clone().unregister();
        let g: GlobalStyle = GlobalStyle::new(sheet.clone())?;
        let _: GlobalStyle = GlobalStyle::new_with_manager(sheet.clone(), manager()?)?;
        let _: (&str, &StyleId) = (g.get_style_str(), g.id());
        g.clone().unregister();
        let src: StyleSource = StyleSource::from(sheet);
        let src = src.with_manager(manager()?);
        let _: Style = Style::new(src.clone())?;
        let _: GlobalStyle = GlobalStyle::new(src)?;
        Ok(())
    }

    pub fn render(sheet: &Sheet) -> String {
        let _: fn(&Sheet, &mut String, &mut StyleContext<'_>) = <Sheet as ToStyleStr>::write_style;
        for c in sheet.iter() {
            match c {
                ScopeContent::Block(b) => {
                    let _: &[Selector] = &b.condition;
                    let _: &[RuleBlockContent] = &b.content;
                }
                ScopeContent::Rule(r) => {
                    let r: &Rule = r;
                    let _: &[StringFragment] = &r.condition;
                }
            }
        }
        let _: fn(&RuleBlockContent) -> Option<&StyleAttribute> = |c| match c {
            RuleBlockContent::StyleAttr(a) => Some(a),
            RuleBlockContent::Rule(b) => {
                let _: &Bow<'static, Rule> = b;
                None
            }
            RuleBlockContent::Block(_) => None,
        };
        sheet.to_style_str(Some("x"))
    }

    pub fn threads() {
        fn both<T: Send + Sync + Clone + PartialEq + std::fmt::Debug + 'static>() {}
        both::<Sheet>();
        fn err<T: std::error::Error + Send + Sync + 'static>() {}
        err::<stylist::Error>();
    }
}

#[cfg(feature = "parser")]
mod parser {
    use std::borrow::Cow;
    use stylist::ast::Sheet;
    use stylist::{GlobalStyle, Style, StyleSource};

    pub fn parse(s: &str, o: String, c: Cow<'static, str>) -> stylist::Result<()> {
        let _: Sheet = s.parse()?;
        let _: Style = Style::new("color: red;")?;
        let _: Style = Style::create("p", "color: red;".to_string())?;
        let _: GlobalStyle = GlobalStyle::new("div { color: red; }")?;
        let _: StyleSource = StyleSource::try_from(s)?;
        let _: StyleSource = StyleSource::try_from(o)?;
        let _: StyleSource = StyleSource::try_from(c)?;
        let _: StyleSource = s.parse()?;
        Ok(())
    }
}

#[cfg(feature = "macros")]
mod macros {
    use stylist::ast::Sheet;
    use stylist::{GlobalStyle, Style, StyleSource};

    pub fn literal(color: &str) -> stylist::Result<()> {
        let _: Sheet = stylist::ast::sheet!("color: red;");
        let _: Sheet = stylist::ast::sheet!("color: ${c}; .a, &:hover { margin: 0 ${c}; }", c = color);
        let _: StyleSource = stylist::css!("@media (min-width: 1px) { color: ${c}; &.b { width: 1px; } }", c = color);
        let _: Style = stylist::style!("color: red;")?;
        let _: GlobalStyle = stylist::global_style!("div { color: ${c}; }", c = color)?;
        Ok(())
    }

    pub fn inline(color: &str, n: u32) -> stylist::Result<()> {
        let _: Sheet = stylist::ast::sheet! {
            color: ${color};
            .a, &:hover { width: ${n}px; }
            @media (min-width: 1px) { color: red; & .b { margin: 1px; } }
        };
        let _: StyleSource = stylist::css! { color: ${color}; };
        let _: Style = stylist::style! { color: ${color}; }?;
        let _: GlobalStyle = stylist::global_style! { div { color: ${color}; } }?;
        let _: StyleSource = stylist::css! {};
        Ok(())
    }
}

#[cfg(feature = "ssr")]
mod ssr {
    use stylist::manager::{render_static, StaticReader, StaticWriter, StyleData, StyleManager};

    pub fn write() -> stylist::Result<String> {
        let (w, r): (StaticWriter, StaticReader) = render_static();
        let _ = StyleManager::builder().writer(w).build()?;
        let data: StyleData = r.read_style_data();
        let mut s = String::new();
        let _ = data.write_static_markup(&mut s);
        fn wire<T: serde::Serialize + for<'a> serde::Deserialize<'a>>() {}
        wire::<StyleData>();
        Ok(s)
    }
}

#[cfg(feature = "hydration")]
mod hydration {
    use stylist::manager::{StyleData, StyleManager};

    pub fn load(m: &StyleManager, d: &StyleData) {
        m.load_style_data(d);
        fn wire<T: serde::Serialize + for<'a> serde::Deserialize<'a>>() {}
        wire::<StyleData>();
    }
}

#[cfg(feature = "with_yew")]
mod with_yew {
    use stylist::ast::Sheet;
    use stylist::manager::StyleManager;
    use stylist::yew::{Global, ManagerProvider};
    use stylist::{Style, StyleSource};
    use yew::prelude::*;

    #[derive(Properties, PartialEq)]
    pub struct P {
        pub sheet: Sheet,
        pub manager: StyleManager,
    }

    #[function_component]
    pub fn App(p: &P) -> Html {
        let style: Style = Style::new(p.sheet.clone()).unwrap();
        let src: StyleSource = p.sheet.clone().into();
        html! {
            <ManagerProvider manager={p.manager.clone()}>
                <Global css={p.sheet.clone()} />
                <div class={style.clone()} />
                <div class={src} />
                <div class={classes!("a", style)} />
            </ManagerProvider>
        }
    }

    #[cfg(feature = "parser")]
    #[function_component]
    pub fn FromText() -> Html {
        html! { <Global css="div { color: red; }" /> }
    }
}

#[cfg(any(feature = "yew_use_style", feature = "yew_integration"))]
mod use_style {
    use stylist::ast::Sheet;
    use stylist::yew::use_style;
    use stylist::Style;
    use yew::prelude::*;

    #[derive(Properties, PartialEq)]
    pub struct P {
        pub sheet: Sheet,
    }

    #[function_component]
    pub fn Styled(p: &P) -> Html {
        let s: Style = use_style(p.sheet.clone());
        html! { <div class={s} /> }
    }

    #[cfg(feature = "parser")]
    #[function_component]
    pub fn FromText() -> Html {
        let s: Style = use_style("color: red;");
        html! { <div class={s} /> }
    }

    #[cfg(feature = "macros")]
    #[function_component]
    pub fn FromMacro() -> Html {
        let s: Style = stylist::yew::use_style!("color: red;");
        let t: Style = stylist::yew::use_style! { color: red; };
        html! { <div class={classes!(s, t)} /> }
    }
}

#[cfg(all(feature = "with_yew", feature = "macros"))]
mod styled {
    use stylist::yew::{styled_component, styled_component_impl};
    use yew::prelude::*;

    #[styled_component]
    pub fn Comp() -> Html {
        html! { <div class={css!("color: red;")}><span class={css! { color: blue; }} /></div> }
    }

    #[styled_component_impl]
    #[function_component(Other)]
    pub fn other() -> Html {
        html! { <div class={css!("color: red;")} /> }
    }
}

#[cfg(any(feature = "yew_use_media_query", feature = "yew_integration"))]
mod media {
    use stylist::yew::{use_media_query, use_prepared_media_query};
    use yew::prelude::*;

    #[function_component]
    pub fn Wide() -> HtmlResult {
        let a: bool = use_media_query("(min-width: 1px)");
        let b: bool = use_prepared_media_query("(min-width: 1px)", true)?;
        Ok(html! { <>{a && b}</> })
    }
}
