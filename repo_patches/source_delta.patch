From 29b0626ced0bef9e99f844f3bfaf9f9f889bc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 1/9] fix: MAX_DISCRIMINANT for the 52bits width is 4095, not
 4068

The 52bits configuration leaves 12 bits for the discriminant, so discriminants
4069..=4095 are representable but were rejected.
---
 src/discriminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index b0a42be..a9153dc 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -80,7 +80,7 @@ generate_discriminants! {
     [tagged_box_reserve_55bits, u16, 511,   55, 9 ],
     [tagged_box_reserve_54bits, u16, 1023,  54, 10],
     [tagged_box_reserve_53bits, u16, 2047,  53, 11],
-    [tagged_box_reserve_52bits, u16, 4068,  52, 12],
+    [tagged_box_reserve_52bits, u16, 4095,  52, 12],
     [tagged_box_reserve_51bits, u16, 8191,  51, 13],
     [tagged_box_reserve_50bits, u16, 16383, 50, 14],
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
-- 
2.43.0


From f7d41b32ca78c4b9597e47fd9b154808453ecaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 2/9] fix: let tagged_box! compile at the 48bits..55bits widths

The macros cast variant counters to u8, but Discriminant is u16 at widths of
55 bits and below, so no use of tagged_box! compiled there.
---
 src/tagged_box_macro/meta_macros.rs | 68 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 38 ++++++++--------
 2 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 47596bb..43250ae 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8e72f1e..1fe802c 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -184,7 +184,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($ty:ty), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($ty) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
@@ -199,7 +199,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
                 struct $variant($( $ty ),*);
@@ -218,7 +218,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -232,7 +232,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -247,7 +247,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+            discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
         ] $( $rest )*);
     };
 
@@ -280,7 +280,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
                 },
             ] $($rest)*
@@ -296,7 +296,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
@@ -312,7 +312,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -332,7 +332,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -353,7 +353,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+                discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
             ] $($rest)*
         )
     };
@@ -393,7 +393,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
@@ -411,7 +411,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant($( $ty ),*);
 
@@ -440,7 +440,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -463,7 +463,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -487,7 +487,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: $enum = $enum::$variant;
                     ($callback)(&variant);
                 }
-- 
2.43.0


From 4810194781cbbbcad98182f81c0b3610d533af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 3/9] fix: read multi-field tuple variants with the layout they
 were stored with

into_tagged_box stores the fields as a #[repr(C)] struct, but from_tagged_box
read them back as a Rust tuple, whose field order is unspecified: fields of
different sizes came back with each other's bytes.
---
 src/tagged_box_macro/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 1fe802c..727ab6b 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -297,7 +297,11 @@ macro_rules! __from_tagged_box {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
+                    #[allow(dead_code)]
+                    #[repr(C)]
+                    struct $variant($( $ty ),*);
+
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
-- 
2.43.0


From 86659541d4d008e1034ae759816c1e87c33d6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 4/9] fix: don't drop zero-sized values when they are boxed

TaggedBox::new dropped a zero-sized value on the spot and into_inner handed it
out again, so its destructor ran twice.
---
 src/tagged_box.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 730a83e..9999d7d 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -81,7 +81,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let boxed = Self::dangling::<U>(discriminant);
+            // The box owns the value from here on, so its destructor must not run now
+            mem::forget(val);
+
+            boxed
         } else {
             let layout = Layout::new::<U>();
 
@@ -174,7 +178,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let boxed = Self::dangling::<U>(discriminant);
+            // The box owns the value from here on, so its destructor must not run now
+            mem::forget(val);
+
+            boxed
         } else {
             let layout = Layout::new::<U>();
 
-- 
2.43.0


From 2f1218043c101d02779c674fa2a05f399e5cff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 5/9] fix: reject out-of-range discriminants and pointers in
 every build

TaggedPointer::new documents that it panics, but only did so with debug
assertions on; dangling (zero-sized values, unit variants) never checked at
all. An oversized discriminant was silently truncated to another one, which
from safe code turns into reading a payload as a different type.
---
 src/tagged_pointer.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index c4eb53b..3eb0b66 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -27,13 +27,13 @@ impl TaggedPointer {
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
-        debug_assert!(
+        assert!(
             discriminant <= MAX_DISCRIMINANT,
             "Attempted to store a discriminant of {} while the max value is {}",
             discriminant,
             MAX_DISCRIMINANT,
         );
-        debug_assert!(
+        assert!(
             ptr <= MAX_POINTER_VALUE,
             "If you are receiving this error, then your hardware uses more than {} bits of a pointer to store addresses. \
             It is recommended that you use a different feature for the `tagged-box` crate using `features = [\"{}bits\"]` or above.
@@ -47,8 +47,21 @@ impl TaggedPointer {
         Self { tagged_ptr }
     }
 
+    /// Creates a dangling but well-aligned tagged pointer
+    ///
+    /// # Panics
+    ///
+    /// Panics if `discriminant` is greater than [`MAX_DISCRIMINANT`]
+    ///
+    /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant greater than the max value",
+        );
+
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
-- 
2.43.0


From d9a177147764fc9c99e251d90c43b28c55e6b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 6/9] fix: reject enums with more variants than discriminants
 at compile time

Counters past the discriminant type wrapped around, so with more than 256
variants two variants shared a discriminant and from_tagged_box built the
wrong one from the other's payload.
---
 src/tagged_box_macro/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 727ab6b..b13b9ae 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -746,6 +746,16 @@ macro_rules! tagged_box {
             value: $crate::TaggedBox<$enum>,
         }
 
+        const _: () = assert!(
+            $crate::__count_variants!($( $variants )+) - 1
+                <= $crate::discriminant::MAX_DISCRIMINANT as usize,
+            concat!(
+                "The number of variants in `",
+                stringify!($enum),
+                "` is greater than the number of discriminants for the current reserved pointer width",
+            ),
+        );
+
         impl $crate::TaggableContainer for $struct {
             type Inner = $enum;
 
-- 
2.43.0


From 5d2925b3b8dc25054142ede04813a72867226a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 7/9] fix: rebuild when TAGGED_BOX_RESERVED_WIDTH changes

Changing the variable without touching a file kept the previously built width.
---
 build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.rs b/build.rs
index e09a66c..e00200d 100644
--- a/build.rs
+++ b/build.rs
@@ -1,4 +1,6 @@
 fn main() {
+    println!("cargo:rerun-if-env-changed=TAGGED_BOX_RESERVED_WIDTH");
+
     if let Ok(var) = dbg!(std::env::var("TAGGED_BOX_RESERVED_WIDTH")) {
         match &*var {
             "63bits" => println!("cargo:rustc-cfg=tagged_box_reserve_63bits"),
-- 
2.43.0


From 2e197b99f61fb70141c7cea0a882f61cd2a3b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 8/9] hook: contracts on TaggedPointer and TaggedBox for the
 Kani verifier

Guarded by --cfg tagged_box_contracts; nothing changes without it.
---
 src/lib.rs            |  2 ++
 src/spec.rs           | 84 +++++++++++++++++++++++++++++++++++++++++++
 src/tagged_box.rs     | 38 ++++++++++++++++++++
 src/tagged_pointer.rs | 22 ++++++++++++
 4 files changed, 146 insertions(+)
 create mode 100644 src/spec.rs

diff --git a/src/lib.rs b/src/lib.rs
index a8db25e..9b08916 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,6 +216,8 @@ macro_rules! impl_fmt {
 
 pub mod discriminant;
 pub mod manually_impl_enum;
+#[cfg(tagged_box_contracts)]
+mod spec;
 mod taggable;
 mod tagged_box;
 #[macro_use]
diff --git a/src/spec.rs b/src/spec.rs
new file mode 100644
index 0000000..8ddfe30
--- /dev/null
+++ b/src/spec.rs
@@ -0,0 +1,84 @@
+//! Specification helpers for the contracts on this crate's functions.
+//!
+//! Only compiled for the Kani verifier, with `--cfg tagged_box_contracts`; never part of a
+//! normal build.
+
+use crate::discriminant::{Discriminant, POINTER_WIDTH};
+use core::mem::{size_of, transmute_copy, MaybeUninit};
+
+/// `2 ^ POINTER_WIDTH`: one more than the largest address
+pub(crate) const TAG_UNIT: u64 = 1 << POINTER_WIDTH;
+
+/// The precondition of every constructor
+pub(crate) fn in_range(ptr: u64, discriminant: Discriminant) -> bool {
+    ptr < TAG_UNIT && discriminant as u64 <= u64::max_value() / TAG_UNIT
+}
+
+/// The abstract view of a tagged word is the pair of its address and its discriminant
+pub(crate) fn word_is(word: u64, ptr: u64, discriminant: Discriminant) -> bool {
+    word % TAG_UNIT == ptr && word / TAG_UNIT == discriminant as u64
+}
+
+/// The word a tagged pointer or tagged box consists of
+pub(crate) fn raw<S>(this: &S) -> u64 {
+    assert!(size_of::<S>() == size_of::<u64>());
+    unsafe { transmute_copy(this) }
+}
+
+/// The address in a tagged pointer or tagged box
+pub(crate) fn addr<S>(this: &S) -> u64 {
+    raw(this) % TAG_UNIT
+}
+
+/// The discriminant in a tagged pointer or tagged box
+pub(crate) fn tag<S>(this: &S) -> u64 {
+    raw(this) / TAG_UNIT
+}
+
+/// The address in a tagged pointer or tagged box, as a pointer
+pub(crate) fn at<S, U>(this: &S) -> *const U {
+    addr(this) as *const U
+}
+
+/// A bitwise snapshot of a value, that doesn't own anything
+pub(crate) struct Image<U>(MaybeUninit<U>);
+
+impl<U> Clone for Image<U> {
+    fn clone(&self) -> Self {
+        snapshot(self.0.as_ptr())
+    }
+}
+
+/// Takes a snapshot of a value
+pub(crate) fn snapshot<U>(value: *const U) -> Image<U> {
+    Image(unsafe { (value as *const MaybeUninit<U>).read() })
+}
+
+/// Whether the value at `value` is bit for bit the one in `image`.  
+/// Only meaningful for types without padding
+pub(crate) fn is_image<U>(value: *const U, image: &Image<U>) -> bool {
+    let value = snapshot(value);
+    let (value, image) = (value.0.as_ptr() as *const u8, image.0.as_ptr() as *const u8);
+    let mut same = true;
+    let mut byte = 0;
+
+    while byte < size_of::<U>() {
+        same &= unsafe { *value.add(byte) == *image.add(byte) };
+        byte += 1;
+    }
+
+    same
+}
+
+/// Every word is some tagged pointer, and some tagged box
+impl kani::Arbitrary for crate::TaggedPointer {
+    fn any() -> Self {
+        unsafe { transmute_copy(&kani::any::<u64>()) }
+    }
+}
+
+impl<T> kani::Arbitrary for crate::TaggedBox<T> {
+    fn any() -> Self {
+        unsafe { transmute_copy(&kani::any::<u64>()) }
+    }
+}
diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 9999d7d..3adcb1a 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -1,3 +1,5 @@
+#[cfg(tagged_box_contracts)]
+use crate::spec;
 use crate::{discriminant::Discriminant, taggable::TaggableInner, tagged_pointer::TaggedPointer};
 use alloc::boxed::Box;
 use core::{
@@ -79,6 +81,13 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(0, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| {
+        let ptr = spec::at::<_, U>(this);
+        spec::tag(this) == discriminant as u64
+            && ptr as u64 % mem::align_of::<U>() as u64 == 0
+            && spec::is_image(ptr, &old(spec::snapshot(&val)))
+    }))]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
             let boxed = Self::dangling::<U>(discriminant);
@@ -176,6 +185,13 @@ impl<T> TaggedBox<T> {
     /// [`MAX_POINTER_VALUE`]: crate::discriminant::MAX_POINTER_VALUE
     /// [`TaggedPointer::new_unchecked`]: crate::tagged_pointer::TaggedPointer#new_unchecked
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(0, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| {
+        let ptr = spec::at::<_, U>(this);
+        spec::tag(this) == discriminant as u64
+            && ptr as u64 % mem::align_of::<U>() as u64 == 0
+            && spec::is_image(ptr, &old(spec::snapshot(&val)))
+    }))]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
             let boxed = Self::dangling::<U>(discriminant);
@@ -208,6 +224,11 @@ impl<T> TaggedBox<T> {
     ///
     /// [`NonNull::dangling`]: https://doc.rust-lang.org/core/ptr/struct.NonNull.html#method.dangling
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(0, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| {
+        let addr = spec::addr(this);
+        spec::tag(this) == discriminant as u64 && addr != 0 && addr % mem::align_of::<U>() as u64 == 0
+    }))]
     pub const fn dangling<U>(discriminant: Discriminant) -> Self {
         Self {
             boxed: TaggedPointer::dangling::<U>(discriminant),
@@ -240,6 +261,8 @@ impl<T> TaggedBox<T> {
     ///
     #[inline]
     #[allow(clippy::should_implement_trait)]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference(spec::at::<_, U>(self))))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &&U| *value as *const U == spec::at::<_, U>(self)))]
     pub unsafe fn as_ref<U>(&self) -> &U {
         self.boxed.as_ref()
     }
@@ -272,6 +295,8 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference(spec::at::<_, U>(self))))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &&mut U| *value as *const U == old(spec::at::<_, U>(&*self))))]
     pub unsafe fn as_mut_ref<U>(&mut self) -> &mut U {
         self.boxed.as_mut_ref()
     }
@@ -302,6 +327,8 @@ impl<T> TaggedBox<T> {
     ///
     #[inline]
     #[must_use]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference(spec::at::<_, U>(&tagged))))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &U| spec::is_image(value, &old(spec::snapshot(spec::at::<_, U>(&tagged))))))]
     pub unsafe fn into_inner<U>(tagged: Self) -> U {
         let mut tagged = ManuallyDrop::new(tagged);
         tagged.as_mut_ptr::<U>().read()
@@ -329,6 +356,7 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|raw: &*mut U| *raw as *const U == old(spec::at::<_, U>(&tagged))))]
     pub fn into_raw<U>(tagged: Self) -> *mut U {
         ManuallyDrop::new(tagged).boxed.as_mut_ptr()
     }
@@ -359,6 +387,11 @@ impl<T> TaggedBox<T> {
     ///
     /// [`Box`]: https://doc.rust-lang.org/alloc/boxed/struct.Box.html
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference(spec::at::<_, U>(&tagged))))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &Box<U>| {
+        &**value as *const U == old(spec::at::<_, U>(&tagged))
+            && spec::is_image(&**value, &old(spec::snapshot(spec::at::<_, U>(&tagged))))
+    }))]
     pub unsafe fn into_box<U>(tagged: Self) -> alloc::boxed::Box<U> {
         use alloc::boxed::Box;
 
@@ -403,6 +436,8 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(raw as u64, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| spec::word_is(spec::raw(this), raw as u64, discriminant)))]
     pub unsafe fn from_raw<U>(raw: *mut U, discriminant: Discriminant) -> Self {
         Self {
             boxed: TaggedPointer::new(raw as u64, discriminant),
@@ -424,6 +459,7 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|tag| *tag as u64 == spec::tag(self)))]
     pub const fn discriminant(&self) -> Discriminant {
         self.boxed.discriminant()
     }
@@ -448,6 +484,7 @@ impl<T> TaggedBox<T> {
     /// [`TaggedPointer::as_ptr`]: crate::TaggedPointer#as_ptr
     /// [`as_mut_ptr`]: crate::TaggedBox::as_ptr
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|ptr: &*const U| *ptr as u64 == spec::addr(self)))]
     pub const fn as_ptr<U>(&self) -> *const U {
         self.boxed.as_ptr() as *const U
     }
@@ -475,6 +512,7 @@ impl<T> TaggedBox<T> {
     ///
     /// [`TaggedPointer::as_mut_ptr`]: crate::TaggedPointer#as_mut_ptr
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|ptr: &*mut U| *ptr as u64 == old(spec::addr(&*self))))]
     pub fn as_mut_ptr<U>(&mut self) -> *mut U {
         self.boxed.as_mut_ptr() as *mut U
     }
diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index 3eb0b66..9d9d637 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -1,6 +1,8 @@
 use crate::discriminant::{
     Discriminant, DISCRIMINANT_MASK, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH,
 };
+#[cfg(tagged_box_contracts)]
+use crate::spec;
 use core::fmt;
 
 /// A pointer that holds a data pointer plus additional data stored as a [`Discriminant`]  
@@ -26,6 +28,8 @@ impl TaggedPointer {
     /// [`MAX_POINTER_VALUE`]: crate::discriminant::MAX_POINTER_VALUE
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(ptr, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| spec::word_is(spec::raw(this), ptr, discriminant)))]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
         assert!(
             discriminant <= MAX_DISCRIMINANT,
@@ -56,6 +60,11 @@ impl TaggedPointer {
     /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(0, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|this: &Self| {
+        let addr = spec::addr(this);
+        spec::tag(this) == discriminant as u64 && addr != 0 && addr % core::mem::align_of::<T>() as u64 == 0
+    }))]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
         assert!(
             discriminant <= MAX_DISCRIMINANT,
@@ -71,6 +80,7 @@ impl TaggedPointer {
     ///
     /// [`Discriminant`]: crate::Discriminant
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|tag| *tag as u64 == spec::tag(&self)))]
     pub const fn discriminant(self) -> Discriminant {
         Self::fetch_discriminant(self.tagged_ptr)
     }
@@ -84,6 +94,8 @@ impl TaggedPointer {
     /// [`TaggedPointer::new`]: crate::TaggedPointer#new
     #[inline]
     #[allow(clippy::should_implement_trait)]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference((spec::addr(&*self)) as *const T)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &&T| *value as *const T as u64 == spec::addr(&*self)))]
     pub unsafe fn as_ref<T>(&self) -> &T {
         &*(Self::strip_discriminant(self.tagged_ptr) as *const T)
     }
@@ -96,12 +108,15 @@ impl TaggedPointer {
     ///
     /// [`TaggedPointer::new`]: crate::TaggedPointer#new
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(kani::mem::can_dereference((spec::addr(&*self)) as *const T)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|value: &&mut T| *value as *const T as u64 == old(spec::addr(&*self))))]
     pub unsafe fn as_mut_ref<T>(&mut self) -> &mut T {
         &mut *(Self::strip_discriminant(self.tagged_ptr) as *mut T)
     }
 
     /// Returns the pointer as a u64, removing the discriminant
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|addr| *addr == spec::addr(&self)))]
     pub const fn as_u64(self) -> u64 {
         Self::strip_discriminant(self.tagged_ptr)
     }
@@ -113,18 +128,21 @@ impl TaggedPointer {
     /// Attempting to dereference this u64 will not point to valid memory!
     ///
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|word| *word == spec::raw(&self)))]
     pub const fn as_raw_u64(self) -> u64 {
         self.tagged_ptr
     }
 
     /// Converts a tagged pointer into a raw pointer, removing the discriminant
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|ptr: &*const T| *ptr as u64 == spec::addr(&self)))]
     pub const fn as_ptr<T>(self) -> *const T {
         Self::strip_discriminant(self.tagged_ptr) as *const T
     }
 
     /// Converts a tagged pointer into a raw pointer, removing the discriminant
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|ptr: &*mut T| *ptr as u64 == spec::addr(&self)))]
     pub fn as_mut_ptr<T>(self) -> *mut T {
         Self::strip_discriminant(self.tagged_ptr) as *mut T
     }
@@ -140,6 +158,8 @@ impl TaggedPointer {
     /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     /// [`MAX_POINTER_VALUE`]: crate::discriminant::MAX_POINTER_VALUE
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::requires(spec::in_range(pointer, discriminant)))]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|word| spec::word_is(*word, pointer, discriminant)))]
     pub const fn store_discriminant(pointer: u64, discriminant: Discriminant) -> u64 {
         pointer | ((discriminant as u64) << POINTER_WIDTH)
     }
@@ -148,6 +168,7 @@ impl TaggedPointer {
     ///
     /// [`Discriminant`]: crate::Discriminant
     #[allow(clippy::cast_possible_truncation)]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|tag| *tag as u64 == pointer / spec::TAG_UNIT))]
     pub const fn fetch_discriminant(pointer: u64) -> Discriminant {
         (pointer >> POINTER_WIDTH) as Discriminant
     }
@@ -156,6 +177,7 @@ impl TaggedPointer {
     ///
     /// [`Discriminant`]: crate::Discriminant
     #[inline]
+    #[cfg_attr(tagged_box_contracts, kani::ensures(|addr| *addr == pointer % spec::TAG_UNIT))]
     pub const fn strip_discriminant(pointer: u64) -> u64 {
         pointer & DISCRIMINANT_MASK
     }
-- 
2.43.0


From 564339eb9c1c6da526fceec67c01d0f88c271692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 9/9] fix: don't run an enum's own destructor when it is boxed
 or borrowed

An enum that implements Drop and whose fields are Copy was destructured by
copy when it was turned into a TaggedBox, so its destructor ran at boxing and
again when the value was taken out. Unit variants were dropped after each
borrow too.
---
 src/tagged_box_macro/meta_macros.rs | 64 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 12 +++---
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 43250ae..65b78b5 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa),core::ptr::read(bb)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa),core::ptr::read(bb),core::ptr::read(cc)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa),core::ptr::read(bb),core::ptr::read(cc),core::ptr::read(dd)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa),core::ptr::read(bb),core::ptr::read(cc),core::ptr::read(dd),core::ptr::read(ee)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<$variant>(unsafe { $variant(core::ptr::read(a),core::ptr::read(b),core::ptr::read(c),core::ptr::read(d),core::ptr::read(e),core::ptr::read(f),core::ptr::read(g),core::ptr::read(h),core::ptr::read(i),core::ptr::read(j),core::ptr::read(k),core::ptr::read(l),core::ptr::read(m),core::ptr::read(n),core::ptr::read(o),core::ptr::read(p),core::ptr::read(q),core::ptr::read(r),core::ptr::read(s),core::ptr::read(t),core::ptr::read(u),core::ptr::read(v),core::ptr::read(w),core::ptr::read(x),core::ptr::read(y),core::ptr::read(z),core::ptr::read(aa),core::ptr::read(bb),core::ptr::read(cc),core::ptr::read(dd),core::ptr::read(ee),core::ptr::read(ff)) }, $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index b13b9ae..92decbb 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(unsafe { core::ptr::read(var) }, $counter::$variant as $crate::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<$variant>(unsafe { $variant { $( $member: core::ptr::read($member) ),* } }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<$variant>(unsafe { $variant { $( $member: core::ptr::read($member) ),* } }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -95,7 +95,9 @@ macro_rules! __taggable_into_box {
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident [$($finished:tt)*]) => {
-        match $tagged {
+        // The box owns the value from here on, so a destructor of the enum must not run now.
+        // Safety: The fields are read once, and what is left is never used or dropped
+        match &*core::mem::ManuallyDrop::new($tagged) {
             $( $finished )*
         }
     };
@@ -492,7 +494,7 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    let variant: $enum = $enum::$variant;
+                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant);
                     ($callback)(&variant);
                 }
             ]
-- 
2.43.0

