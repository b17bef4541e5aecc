From 07954cbcf065c77487d776f65bf004bc2476231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:33 +0000
Subject: [PATCH 01/34] fix: cache strings under the requested language,
 without losing other entries

A string found for a related or the default language was added to the cache
under the language of the string, while the presence of the language in the
cache had been determined for the requested language. That replaced all cached
strings of a language, or panicked. With the feature sync, two threads that
first use a language also replaced each other's entries between adding and
using a formatter, and panicked.
---
 crates/localiser/src/localiser.rs | 138 ++++++++----------------------
 1 file changed, 35 insertions(+), 103 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..b293c3b 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -950,7 +950,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier.as_ref());
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -959,7 +958,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1036,7 +1034,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1046,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1057,76 +1055,24 @@ impl Localiser {
             },
         };
 
-        // If caching is not allowed, simple use `Formatter` to get the (String, RefCount<LanguageTag>).
-        if !caching {
-            let localised = formatter.format(self, values)?;
-            return Ok((RefCount::new(localised.0), RefCount::clone(localised.1)));
-        }
+        // Use `Formatter` to get the (String, RefCount<LanguageTag>).
+        let result = match formatter.format(self, values) {
+            Err(error) => Err(LocaliserError::Formatter(error)),
+            Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
+        };
 
-        // Cache the `Formatter`.
-        {
+        // Cache the `Formatter`, if allowed.
+        if caching {
             #[cfg(feature = "logging")]
             debug!("Caching formatting string.");
 
-            if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
-                data_entry.insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-
-                #[cfg(not(feature = "sync"))]
-                self.cache
-                    .borrow_mut()
-                    .insert(RefCount::clone(language_tag), data_entry);
-
-                #[cfg(feature = "sync")]
-                self.cache
-                    .write()
-                    .unwrap()
-                    .insert(RefCount::clone(language_tag), data_entry);
-            } else {
-                #[cfg(not(feature = "sync"))]
-                let mut binding = self.cache.borrow_mut();
-
-                #[cfg(feature = "sync")]
-                let mut binding = self.cache.write().unwrap();
-
-                let data_entry = binding.get_mut(language_tag);
-                data_entry.unwrap().insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-            }
-        }
-
-        // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
-        #[cfg(not(feature = "sync"))]
-        let binding = self.cache.borrow();
-
-        #[cfg(feature = "sync")]
-        let binding = self.cache.read().unwrap();
-
-        let result = binding.get(language_tag).unwrap();
-        let result2 = result.get(&combined).unwrap();
-        match result2 {
-            // This branch should never be reached.
-            CacheData::Localised(_, _) => Err(LocaliserError::NeverReached),
-
-            #[cfg(not(feature = "sync"))]
-            CacheData::Formatter(formatter) => match formatter.borrow_mut().format(self, values) {
-                Err(error) => Err(LocaliserError::Formatter(error)),
-                Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
-            },
-
-            #[cfg(feature = "sync")]
-            CacheData::Formatter(formatter) => {
-                match formatter.write().unwrap().format(self, values) {
-                    Err(error) => Err(LocaliserError::Formatter(error)),
-                    Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
-                }
-            }
+            self.add_to_cache(
+                language_tag,
+                combined,
+                CacheData::Formatter(MutCell::new(formatter)),
+            );
         }
+        result
     }
 
     // Simply get the language string without any formatting being done.
@@ -1141,7 +1087,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier);
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1150,7 +1095,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1207,7 +1151,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1261,46 +1205,34 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
+        language_tag: &RefCount<LanguageTag>, // The requested language.
         combined: String,
         string: &RefCount<String>,
-        tag: &RefCount<LanguageTag>,
+        tag: &RefCount<LanguageTag>, // The language of the string, may be another language.
     ) {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
-            data_entry.insert(
-                combined.to_string(),
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
+        self.add_to_cache(
+            language_tag,
+            combined,
+            CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
+        );
+    }
 
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+    // The cache is always searched with the requested language, thus also entries are always added for the requested
+    // language, even when the language of the found string differs.
+    fn add_to_cache(&self, language_tag: &RefCount<LanguageTag>, combined: String, data: CacheData) {
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
-            data_entry.unwrap().insert(
-                combined,
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-        }
+        binding
+            .entry(RefCount::clone(language_tag))
+            .or_default()
+            .insert(combined, data);
     }
 }
 
-- 
2.43.0


From a6228b590f6f9d65af286f7ba9507d77864cca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 02/34] fix: do not share cache entries between strings whose
 joined names coincide
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The cache joined component and identifier with a slash, thus the string ‘title’
of the component ‘app/sub’ and the string ‘sub/title’ of the component ‘app’
were answered with each other once one of them was cached.
---
 crates/localiser/src/localiser.rs | 44 ++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index b293c3b..8b778f4 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,9 +947,10 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
+        let key = CacheKey {
+            component: component.to_string(),
+            identifier: identifier.to_string(),
+        };
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -958,7 +959,7 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                if let Some(result2) = result.get(&combined) {
+                if let Some(result2) = result.get(&key) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
@@ -1034,7 +1035,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+                self.add_string_to_cache(language_tag, key, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1046,7 +1047,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+                        self.add_string_to_cache(language_tag, key, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1068,7 +1069,7 @@ impl Localiser {
 
             self.add_to_cache(
                 language_tag,
-                combined,
+                key,
                 CacheData::Formatter(MutCell::new(formatter)),
             );
         }
@@ -1084,9 +1085,10 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier);
+        let key = CacheKey {
+            component: component.to_string(),
+            identifier: identifier.to_string(),
+        };
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1095,7 +1097,7 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                if let Some(result2) = result.get(&combined) {
+                if let Some(result2) = result.get(&key) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
@@ -1151,7 +1153,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
+            self.add_string_to_cache(language_tag, key, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1206,7 +1208,7 @@ impl Localiser {
     fn add_string_to_cache(
         &self,
         language_tag: &RefCount<LanguageTag>, // The requested language.
-        combined: String,
+        key: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>, // The language of the string, may be another language.
     ) {
@@ -1215,14 +1217,14 @@ impl Localiser {
 
         self.add_to_cache(
             language_tag,
-            combined,
+            key,
             CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
         );
     }
 
     // The cache is always searched with the requested language, thus also entries are always added for the requested
     // language, even when the language of the found string differs.
-    fn add_to_cache(&self, language_tag: &RefCount<LanguageTag>, combined: String, data: CacheData) {
+    fn add_to_cache(&self, language_tag: &RefCount<LanguageTag>, key: CacheKey, data: CacheData) {
         #[cfg(not(feature = "sync"))]
         let mut binding = self.cache.borrow_mut();
 
@@ -1232,12 +1234,18 @@ impl Localiser {
         binding
             .entry(RefCount::clone(language_tag))
             .or_default()
-            .insert(combined, data);
+            .insert(key, data);
     }
 }
 
 // Internal structs, enums, etc
 
+#[derive(PartialEq, Eq, Hash)]
+struct CacheKey {
+    component: String,
+    identifier: String,
+}
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From b8001ce0a5d36bfd760dea58c5a62547c4e78c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:35 +0000
Subject: [PATCH 03/34] fix: do not share cache entries between literal and
 formatted strings

After a pattern string was cached by literal(), format() returned the pattern
string without formatting it. After it was cached by format(), literal()
returned the error CacheEntry.
---
 crates/localiser/src/localiser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 8b778f4..2f2ea33 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -950,6 +950,7 @@ impl Localiser {
         let key = CacheKey {
             component: component.to_string(),
             identifier: identifier.to_string(),
+            literal: false,
         };
         {
             #[cfg(not(feature = "sync"))]
@@ -1088,6 +1089,7 @@ impl Localiser {
         let key = CacheKey {
             component: component.to_string(),
             identifier: identifier.to_string(),
+            literal: true,
         };
         {
             #[cfg(not(feature = "sync"))]
@@ -1244,6 +1246,7 @@ impl Localiser {
 struct CacheKey {
     component: String,
     identifier: String,
+    literal: bool, // true = the pattern string itself, false = what is needed to format it.
 }
 
 enum CacheData {
-- 
2.43.0


From 570ae9a2e6d51629bf47aaa81c54bddfeb403f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:46 +0000
Subject: [PATCH 04/34] fix: do not answer from the cache with the default
 language when fallback is off

A string found through the fallback to the default language was cached as if it
were a string of the requested language, thus later calls without fallback got
it instead of StringNotFound.
---
 crates/localiser/src/localiser.rs | 59 ++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 2f2ea33..f427312 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheEntry>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -150,9 +150,10 @@ impl Localiser {
             expander,
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
-            cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
-            ),
+            cache: MutCell::new(HashMap::<
+                RefCount<LanguageTag>,
+                HashMap<CacheKey, CacheEntry>,
+            >::new()),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
         })
@@ -960,8 +961,12 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                if let Some(result2) = result.get(&key) {
-                    return match result2 {
+                // A cached string of the default language is only for when fallback is allowed.
+                if let Some(result2) = result
+                    .get(&key)
+                    .filter(|entry| fallback || !entry.is_default)
+                {
+                    return match &result2.data {
                         CacheData::Localised(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
                         }
@@ -993,6 +998,7 @@ impl Localiser {
         // Not in cache.
         // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)`
         // may be for another language.
+        let mut is_default = false;
         let localised =
             match self
                 .localisation_provider
@@ -1012,6 +1018,7 @@ impl Localiser {
                         .localisation_provider
                         .component_details(component.as_ref())?
                         .default;
+                    is_default = true;
                     match self.localisation_provider.string(
                         component.as_ref(),
                         identifier.as_ref(),
@@ -1036,7 +1043,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(language_tag, key, &string, &localised.1);
+                self.add_string_to_cache(language_tag, key, &string, &localised.1, is_default);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1055,13 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(language_tag, key, &string, &localised.1);
+                        self.add_string_to_cache(
+                            language_tag,
+                            key,
+                            &string,
+                            &localised.1,
+                            is_default,
+                        );
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1072,6 +1085,7 @@ impl Localiser {
                 language_tag,
                 key,
                 CacheData::Formatter(MutCell::new(formatter)),
+                is_default,
             );
         }
         result
@@ -1099,8 +1113,12 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                if let Some(result2) = result.get(&key) {
-                    return match result2 {
+                // A cached string of the default language is only for when fallback is allowed.
+                if let Some(result2) = result
+                    .get(&key)
+                    .filter(|entry| fallback || !entry.is_default)
+                {
+                    return match &result2.data {
                         CacheData::Localised(string, tag) => {
                             Ok((RefCount::clone(string), RefCount::clone(tag)))
                         } //lstring.clone()),
@@ -1115,6 +1133,7 @@ impl Localiser {
 
         // Not in cache.
         // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)` may be for another language.
+        let mut is_default = false;
         let localised =
             match self
                 .localisation_provider
@@ -1134,6 +1153,7 @@ impl Localiser {
                         .localisation_provider
                         .component_details(component.as_ref())?
                         .default;
+                    is_default = true;
                     match self.localisation_provider.string(
                         component.as_ref(),
                         identifier.as_ref(),
@@ -1155,7 +1175,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(language_tag, key, &string, &localised.1);
+            self.add_string_to_cache(language_tag, key, &string, &localised.1, is_default);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1213,6 +1233,7 @@ impl Localiser {
         key: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>, // The language of the string, may be another language.
+        is_default: bool,            // true = string of the default language was used.
     ) {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
@@ -1221,12 +1242,19 @@ impl Localiser {
             language_tag,
             key,
             CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
+            is_default,
         );
     }
 
     // The cache is always searched with the requested language, thus also entries are always added for the requested
     // language, even when the language of the found string differs.
-    fn add_to_cache(&self, language_tag: &RefCount<LanguageTag>, key: CacheKey, data: CacheData) {
+    fn add_to_cache(
+        &self,
+        language_tag: &RefCount<LanguageTag>,
+        key: CacheKey,
+        data: CacheData,
+        is_default: bool,
+    ) {
         #[cfg(not(feature = "sync"))]
         let mut binding = self.cache.borrow_mut();
 
@@ -1236,7 +1264,7 @@ impl Localiser {
         binding
             .entry(RefCount::clone(language_tag))
             .or_default()
-            .insert(key, data);
+            .insert(key, CacheEntry { data, is_default });
     }
 }
 
@@ -1249,6 +1277,11 @@ struct CacheKey {
     literal: bool, // true = the pattern string itself, false = what is needed to format it.
 }
 
+struct CacheEntry {
+    data: CacheData,
+    is_default: bool, // true = the string of the default language, as there is none for the requested language.
+}
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From 6b735084bea62297e0243935d7197948f0214b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:20 +0000
Subject: [PATCH 05/34] fix: parse literal text between backticks

The closing backtick of literal text was not recognised, as it was compared to
itself, thus {`text`} and literal command parameters either failed with
EndedAbruptly, swallowed following text, or panicked.
---
 crates/localiser/src/tree.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..f4e81ba 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -385,13 +387,11 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "`"
                     {
-                        // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
+                        // Skip over 1st ` token, it is followed by 2nd ` token if it is a literal `.
+                        let literal = lexer.next_if(|(_, token)| token.string.as_str() == "`");
+                        if let Some((next, token)) = literal {
                             // Literal 2nd ` found.
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +408,10 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // The text node is already ended, only change back to previous state.
+                        if let Some(state) = parser.nested_states.pop() {
+                            parser.state = state;
+                        }
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +447,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 0f5d9dc51679cb75bf0e518653f5932fa2aef6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 06/34] fix: parse named strings that do not start with an
 identifier

A named string that started with a syntax character, an escaped character or a
pattern did not become a substring: parsing failed or panicked.
---
 crates/localiser/src/tree.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index f4e81ba..5508c3e 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -568,21 +568,21 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
+                            Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
+                            )?;
                         } else if token_str == "`" {
                             // ` may only appear after Identifier node indicating start of SubString.
                             let children =
@@ -606,6 +606,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -631,6 +632,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From 7cd583424b647286c1820ddae899943ac66455d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:40 +0000
Subject: [PATCH 07/34] fix: use the value of an option or selector, not its
 name

Options of decimal and date_time failed with InvalidOptionValue, and selectors
only worked if the named string had the same name as the selector.
---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 4f0088acbfd42adddd93be48d3f37302276bca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 08/34] fix: parse a delayed command without parameters

The parser panicked at the end of {#command#}, as it was still at the number
sign.
---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 5508c3e..d39d1ce 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -468,6 +468,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 749b44c1cd082e914b130157a3961d38ff12abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 09/34] fix: forget the numbers of the previous use of a cached
 formatter

A number sign of a named string that is used by a select pattern was replaced
by the number of the last plural pattern, even when that was formatted by an
earlier call with other values.
---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..558a152 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -192,6 +192,10 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Numbers of previous use must not appear for number signs outside of plural patterns.
+        for number in self.numbers.iter_mut() {
+            number.clear();
+        }
         let pattern_string = self.format_pattern(localiser, values, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From bebf284d292ea29ebd5e7c8cc4bdf4b460b54dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 10/34] fix: do not panic in english_a_or_an for an empty
 string

---
 crates/localiser/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..f5e94d3 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From e5c7514e3bc588890d54e15c589b81317fc49936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:00 +0000
Subject: [PATCH 11/34] fix: share the command registry between threads with
 feature sync

The command registry used RefCell also with feature sync, thus neither it nor
the localiser could be shared between threads. Inserting is one step now, so
that of two threads inserting the same command one gets AlreadyExists.
---
 crates/localiser/src/command.rs | 44 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index f5e94d3..6beaed0 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -3,12 +3,19 @@
 
 use crate::CommandError;
 use i18n_utility::PlaceholderValue;
-use std::cell::RefCell;
+use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::iter::FromIterator;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+#[cfg(not(feature = "sync"))]
+use std::cell::RefCell as MutCell;
+
+#[cfg(feature = "sync")]
+#[cfg(target_has_atomic = "ptr")]
+use std::sync::RwLock as MutCell;
+
 /// Registry for pattern commands callback functions.
 ///
 /// # Examples
@@ -32,7 +39,7 @@ use std::str::FromStr;
 /// ```
 #[allow(clippy::type_complexity)]
 pub struct CommandRegistry {
-    registry: RefCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
+    registry: MutCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
 }
 
 impl CommandRegistry {
@@ -59,7 +66,7 @@ impl CommandRegistry {
     /// ```
     pub fn new() -> Self {
         CommandRegistry {
-            registry: RefCell::new(HashMap::<
+            registry: MutCell::new(HashMap::<
                 String,
                 fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
             >::new()),
@@ -97,15 +104,19 @@ impl CommandRegistry {
         command: &str, //T,
         function: fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
     ) -> Result<(), CommandError> {
-        {
-            if self.registry.borrow().contains_key(command) {
-                return Err(CommandError::AlreadyExists(command.to_string()));
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.registry.borrow_mut();
+
+        #[cfg(feature = "sync")]
+        let mut binding = self.registry.write().unwrap();
+
+        match binding.entry(command.to_string()) {
+            Entry::Occupied(_) => Err(CommandError::AlreadyExists(command.to_string())),
+            Entry::Vacant(entry) => {
+                entry.insert(function);
+                Ok(())
             }
         }
-        self.registry
-            .borrow_mut()
-            .insert(command.to_string(), function);
-        Ok(())
     }
 
     /// Get the callback function for the command.
@@ -135,7 +146,12 @@ impl CommandRegistry {
         &self,
         command: &str, //T,
     ) -> Result<fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, CommandError> {
+        #[cfg(not(feature = "sync"))]
         let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
         let Some(result) = binding.get(command) else {
             return Err(CommandError::NotFound(command.to_string()));
         };
@@ -159,7 +175,13 @@ impl CommandRegistry {
     /// }
     /// ```
     pub fn list(&self) -> Vec<String> {
-        Vec::from_iter(self.registry.borrow().keys().map(|x| x.to_string()))
+        #[cfg(not(feature = "sync"))]
+        let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
+        Vec::from_iter(binding.keys().map(|x| x.to_string()))
     }
 }
 
-- 
2.43.0


From 491d06795dc60ddd85e040d075cd3605bb89035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 12/34] fix: share the localiser between threads with feature
 sync

The boxed provider of the localiser was neither Send nor Sync, thus the
localiser could not be shared between threads, which is what feature sync is
for.
---
 crates/provider/core/src/provider.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/provider/core/src/provider.rs b/crates/provider/core/src/provider.rs
index 5a20351..c39e1ca 100644
--- a/crates/provider/core/src/provider.rs
+++ b/crates/provider/core/src/provider.rs
@@ -12,6 +12,20 @@ use std::rc::Rc as RefCount;
 #[cfg(target_has_atomic = "ptr")]
 use std::sync::Arc as RefCount;
 
+/// `Send` and `Sync` with feature `sync`, otherwise no requirement. Implemented for all suitable types.
+#[cfg(feature = "sync")]
+pub trait MaybeSync: Send + Sync {}
+
+#[cfg(feature = "sync")]
+impl<T: Send + Sync> MaybeSync for T {}
+
+/// `Send` and `Sync` with feature `sync`, otherwise no requirement. Implemented for all suitable types.
+#[cfg(not(feature = "sync"))]
+pub trait MaybeSync {}
+
+#[cfg(not(feature = "sync"))]
+impl<T> MaybeSync for T {}
+
 /// A trait for retrieving language strings from a localisation data repository via a provider that implements the
 /// trait methods: `strings()` and `string()`. In addition, there are other trait methods for retrieving the default
 /// language for a component, and supported languages for entire repository, component and identifier
@@ -31,7 +45,9 @@ use std::sync::Arc as RefCount;
 /// data store.
 ///
 /// [UAX #31]: https://www.unicode.org/reports/tr31/
-pub trait LocalisationProviderTrait {
+///
+/// With feature `sync` a provider must be `Send` and `Sync`, thus also its users can be shared between threads.
+pub trait LocalisationProviderTrait: MaybeSync {
     fn string(
         &self,
         component: &str,
-- 
2.43.0


From 68ef36217abcda728a3c6af7906a6386b583cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:35 +0000
Subject: [PATCH 13/34] fix: do not list a language tag as deprecated when two
 threads add it

---
 crates/utility/src/language.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..bb6df1f 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -192,10 +192,13 @@ impl LanguageTagRegistry {
 
             #[cfg(feature = "sync")]
             if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
+                // Another thread could just have added the very same tag.
+                if language_tag != result.as_str() {
+                    self.deprecated
+                        .lock()
+                        .unwrap()
+                        .insert(language_tag.to_string(), RefCount::clone(result));
+                }
                 return Ok(RefCount::clone(result));
             }
         }
-- 
2.43.0


From 241a3c181f6c60fa5991d7fac434b6b3d96b48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:04 +0000
Subject: [PATCH 14/34] fix: do not fall back to shorter tags for exact string
 matches

string_exact_match() returned the string of a shorter tag (de-CH for
de-CH-1996) when the requested one was not stored, which also kept it from
looking into the component's own file.
---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..5f7a273 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From bd9c83b72bbf0030cf1dc46480ec2ff03ccbc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 15/34] fix: only take strings of the requested language or its
 variants

The search for 'en%' also matched other languages (enb, eno), and a variant
could be returned although the requested tag itself is stored.
---
 crates/provider/sqlite3/src/provider.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 5f7a273..69159a0 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2163,14 +2160,16 @@ fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
             let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
+            component = ?3 AND "
                 .to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                query.push_str(
+                    "(languageTag LIKE ?2 OR languageTag LIKE ?2 || '-%') \
+                    ORDER BY languageTag LIKE ?2 DESC",
+                )
             }
-            query.push_str(" AND component = ?3");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From b71ca3541643623c11bae3c9764e1159c6911498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:04 +0000
Subject: [PATCH 16/34] fix: list all languages of an identifier

Languages only present in the component's own file were left out when the
combined file has the identifier, and for a component which is only in the
combined file an unknown identifier was reported as unknown component.
---
 crates/provider/sqlite3/src/provider.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 69159a0..e294cdc 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1434,9 +1434,17 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                let files = self.components.get(component).copied().unwrap_or_default();
+                if files.0 {
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if files.1 {
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From ce036fed5a75bce7fc4d86a45de8d27f921f6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:54 +0000
Subject: [PATCH 17/34] fix: do not panic when a file name is not valid UTF-8

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index e294cdc..adeb76e 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,7 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let component = path.file_stem().unwrap().to_string_lossy().to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From 716818b4f6b6c14ef3c360e28ac961ada91cb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:38 +0000
Subject: [PATCH 18/34] fix: report missing trailing columns of a repository
 table

---
 crates/provider/sqlite3/src/provider.rs | 60 +++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index adeb76e..3a1ffa2 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1588,6 +1588,47 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             table_exists(&table_list, "pattern")?;
             table_exists(&table_list, "component")?;
             table_exists(&table_list, "languageData")?;
+            columns_exist(
+                connection,
+                "contributor",
+                &[
+                    "rowID",
+                    "component",
+                    "languageTag",
+                    "contributor",
+                    "substituteFor",
+                    "comment",
+                    "verified",
+                ],
+            )?;
+            columns_exist(
+                connection,
+                "language",
+                &["rowID", "tag", "englishName", "added"],
+            )?;
+            columns_exist(
+                connection,
+                "pattern",
+                &[
+                    "rowID",
+                    "component",
+                    "identifier",
+                    "languageTag",
+                    "string",
+                    "comment",
+                    "verified",
+                ],
+            )?;
+            columns_exist(
+                connection,
+                "component",
+                &["rowID", "identifier", "languageTag", "comment", "added"],
+            )?;
+            columns_exist(
+                connection,
+                "languageData",
+                &["rowID", "component", "languageTag", "count", "ratio"],
+            )?;
 
             // Check required columns exists
             // Table: contributor
@@ -1939,6 +1980,25 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check all the columns of the table exist.
+fn columns_exist(
+    connection: &Connection,
+    table: &str,
+    columns: &[&str],
+) -> Result<(), SchemaError> {
+    let mut statement =
+        connection.prepare("SELECT name FROM pragma_table_info(?1) WHERE name = ?2;")?;
+    for column in columns {
+        if !statement.exists([table, column])? {
+            return Err(SchemaError::MissingColumn(
+                table.to_string(),
+                column.to_string(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From d09359b7fc632bab9f05a418df9ce0df2cba4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:55 +0000
Subject: [PATCH 19/34] fix: name the component and messages of lexer errors as
 shipped

The messages of IcuError and LexerError could not be localised: the code asked for
components and identifiers which the repository i18n_lexer.sqlite3 does not have,
and the repository itself misspelt its component.
---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 crates/lexer/src/error.rs            |  12 ++++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
-- 
2.43.0


From 22ed71ace6dd87cb034e7eee26b111701d109400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:55 +0000
Subject: [PATCH 20/34] fix: name the type of a localised RegistryError

---
 crates/utility/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From 6908af94f83b870f52d50713f27fe12512f777dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:55 +0000
Subject: [PATCH 21/34] fix: localise tree and command errors with the shipped
 messages

Their messages moved from i18n_pattern to i18n_localiser with other placeholder names.
---
 crates/localiser/src/error.rs | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..f40d2ec 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -63,7 +63,7 @@ impl LocalisationTrait for TreeError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("LexerError".to_string()),
+                    PlaceholderValue::String("Lexer".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -218,7 +218,7 @@ impl Display for TreeError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
             TreeError::Lexer(ref error) => write!(
-                formatter, "TreeError::LexerError: [{}].", error
+                formatter, "TreeError::Lexer: [{}].", error
             ),
             TreeError::EndedAbruptly => write!(
                 formatter, "TreeError::EndedAbruptly: The string ended abruptly."
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -305,11 +305,11 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -332,11 +332,11 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -359,15 +359,15 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -390,15 +390,15 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From 4cd7117fe1b0e227bbc93bf6d70ca4940c78524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:56 +0000
Subject: [PATCH 22/34] fix: localise formatter errors with the shipped
 messages

Placeholder names of messages and values differed, the message of InvalidSelector
named two different things by one placeholder, and nested errors were not localised.
---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |  14 +++++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index f40d2ec..b5b37f4 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -821,7 +821,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -839,7 +839,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From c1c43ddf5999b59c5432b42c3c77882c3596e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:56 +0000
Subject: [PATCH 23/34] fix: do not mix up the details of two errors when
 displayed

---
 crates/localiser/src/error.rs        | 2 +-
 crates/provider/sqlite3/src/error.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b5b37f4..7d7fa03 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1783,7 +1783,7 @@ impl Display for FormatterError {
                 write!(
                     formatter,
                     "FormatterError::PatternPart: Failed to retrieve the part ‘{}’ of the pattern for the named string ‘{}’.",
-                    identifier, index
+                    index, identifier
                 ),
             FormatterError::InvalidOptionValue( value, option, keyword ) =>
                 write!(
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..d69cc56 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -505,8 +505,8 @@ impl Display for SchemaError {
                 formatter,
                 "Check `verify_schema()` as default value type does not match column type for \
                 the column ‘{}’ of table ‘{}’.",
-                table,
-                column
+                column,
+                table
             ),
         }
     }
-- 
2.43.0


From e3d8a61a8993bb94158084075d809e9f76f21b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:56 +0000
Subject: [PATCH 24/34] fix: name the type and variant of localised schema
 errors

---
 crates/provider/sqlite3/src/error.rs | 117 ++++++++++++++++++++++-----
 1 file changed, 96 insertions(+), 21 deletions(-)

diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index d69cc56..e699583 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -318,14 +318,29 @@ impl LocalisationTrait for SchemaError {
                 }
             }
             SchemaError::MissingTable(name) => {
-                let mut values = HashMap::<String, PlaceholderValue>::new();
-                values.insert(
+                let mut message_values = HashMap::<String, PlaceholderValue>::new();
+                message_values.insert(
                     "name".to_string(),
                     PlaceholderValue::String(name.to_string()),
                 );
-                LocalisationData {
+                let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "missing_table".to_string(),
+                    values: Some(message_values),
+                };
+                let mut values = HashMap::<String, PlaceholderValue>::new();
+                values.insert("type".to_string(), type_string);
+                values.insert(
+                    "variant".to_string(),
+                    PlaceholderValue::String("MissingTable".to_string()),
+                );
+                values.insert(
+                    "message".to_string(),
+                    PlaceholderValue::LocalisationData(message),
+                );
+                LocalisationData {
+                    component: "i18n_localiser".to_string(),
+                    identifier: "error_format_enum".to_string(),
                     values: Some(values),
                 }
             }
@@ -382,74 +397,134 @@ impl LocalisationTrait for SchemaError {
                 }
             }
             SchemaError::MissingColumn(table, column) => {
-                let mut values = HashMap::<String, PlaceholderValue>::new();
-                values.insert(
+                let mut message_values = HashMap::<String, PlaceholderValue>::new();
+                message_values.insert(
                     "table".to_string(),
                     PlaceholderValue::String(table.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "column".to_string(),
                     PlaceholderValue::String(column.to_string()),
                 );
-                LocalisationData {
+                let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "missing_column".to_string(),
+                    values: Some(message_values),
+                };
+                let mut values = HashMap::<String, PlaceholderValue>::new();
+                values.insert("type".to_string(), type_string);
+                values.insert(
+                    "variant".to_string(),
+                    PlaceholderValue::String("MissingColumn".to_string()),
+                );
+                values.insert(
+                    "message".to_string(),
+                    PlaceholderValue::LocalisationData(message),
+                );
+                LocalisationData {
+                    component: "i18n_localiser".to_string(),
+                    identifier: "error_format_enum".to_string(),
                     values: Some(values),
                 }
             }
             SchemaError::ColumnProperty(table, column, property) => {
-                let mut values = HashMap::<String, PlaceholderValue>::new();
-                values.insert(
+                let mut message_values = HashMap::<String, PlaceholderValue>::new();
+                message_values.insert(
                     "table".to_string(),
                     PlaceholderValue::String(table.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "column".to_string(),
                     PlaceholderValue::String(column.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "property".to_string(),
                     PlaceholderValue::String(property.to_string()),
                 );
-                LocalisationData {
+                let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "column_property".to_string(),
+                    values: Some(message_values),
+                };
+                let mut values = HashMap::<String, PlaceholderValue>::new();
+                values.insert("type".to_string(), type_string);
+                values.insert(
+                    "variant".to_string(),
+                    PlaceholderValue::String("ColumnProperty".to_string()),
+                );
+                values.insert(
+                    "message".to_string(),
+                    PlaceholderValue::LocalisationData(message),
+                );
+                LocalisationData {
+                    component: "i18n_localiser".to_string(),
+                    identifier: "error_format_enum".to_string(),
                     values: Some(values),
                 }
             }
             SchemaError::ColumnDefault(table, column, default) => {
-                let mut values = HashMap::<String, PlaceholderValue>::new();
-                values.insert(
+                let mut message_values = HashMap::<String, PlaceholderValue>::new();
+                message_values.insert(
                     "table".to_string(),
                     PlaceholderValue::String(table.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "column".to_string(),
                     PlaceholderValue::String(column.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "default".to_string(),
                     PlaceholderValue::String(default.to_string()),
                 );
-                LocalisationData {
+                let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "column_default".to_string(),
+                    values: Some(message_values),
+                };
+                let mut values = HashMap::<String, PlaceholderValue>::new();
+                values.insert("type".to_string(), type_string);
+                values.insert(
+                    "variant".to_string(),
+                    PlaceholderValue::String("ColumnDefault".to_string()),
+                );
+                values.insert(
+                    "message".to_string(),
+                    PlaceholderValue::LocalisationData(message),
+                );
+                LocalisationData {
+                    component: "i18n_localiser".to_string(),
+                    identifier: "error_format_enum".to_string(),
                     values: Some(values),
                 }
             }
             SchemaError::ColumnMismatch(table, column) => {
-                let mut values = HashMap::<String, PlaceholderValue>::new();
-                values.insert(
+                let mut message_values = HashMap::<String, PlaceholderValue>::new();
+                message_values.insert(
                     "table".to_string(),
                     PlaceholderValue::String(table.to_string()),
                 );
-                values.insert(
+                message_values.insert(
                     "column".to_string(),
                     PlaceholderValue::String(column.to_string()),
                 );
-                LocalisationData {
+                let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "column_mismatch".to_string(),
+                    values: Some(message_values),
+                };
+                let mut values = HashMap::<String, PlaceholderValue>::new();
+                values.insert("type".to_string(), type_string);
+                values.insert(
+                    "variant".to_string(),
+                    PlaceholderValue::String("ColumnMismatch".to_string()),
+                );
+                values.insert(
+                    "message".to_string(),
+                    PlaceholderValue::LocalisationData(message),
+                );
+                LocalisationData {
+                    component: "i18n_localiser".to_string(),
+                    identifier: "error_format_enum".to_string(),
                     values: Some(values),
                 }
             }
-- 
2.43.0


From 6eea8a6a3dd12ad62c2f40e024dbf1efa9e07287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:22 +0000
Subject: [PATCH 25/34] fix: make the numbers of error messages fit their
 placeholders

The shipped messages have them as string placeholders, which do not take numbers:
no error with an index or a position could be localised.
---
 crates/localiser/src/error.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 7d7fa03..fd6b2a4 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -105,7 +105,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
@@ -160,7 +160,7 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -364,7 +364,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -395,7 +395,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 02ad5634258373e21ba5128db6a85da288dc7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:22 +0000
Subject: [PATCH 26/34] fix: format the error messages which have literal parts

Without values their patterns were shown unformatted.
---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index fd6b2a4..b8265e8 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index e699583..3fd5416 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From cb0bd0dd72ebf44dc0fd22c6b774a767f4741973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:37 +0000
Subject: [PATCH 27/34] fix: name the invalid option of a pattern in its error

---
 crates/localiser/src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 558a152..665995a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1092,7 +1092,7 @@ fn part_pattern(
                 group = Some(decimal_grouping_display(value.as_str())?);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
+                    key.as_str().to_string(),
                     "decimal".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
@@ -1116,10 +1116,10 @@ fn part_pattern(
                 length_time = Some(time_length(value.as_str())?);
             } else if key.as_str() == "calendar" {
                 if !option_selectors.calendars.contains(&value.as_str()) {
-                    return Err(FormatterError::InvalidOption(
+                    return Err(FormatterError::InvalidOptionValue(
                         value.as_str().to_string(),
-                        "ordinal".to_string(),
-                        placeholder_token.string.as_str().to_string(),
+                        "calendar".to_string(),
+                        "date_time".to_string(),
                     ));
                 }
                 let mut new_calendar = "-u-ca-".to_string();
@@ -1160,8 +1160,8 @@ fn part_pattern(
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
-                    "date-time".to_string(),
+                    key.as_str().to_string(),
+                    "date_time".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-- 
2.43.0


From 0050c36ee94499847c54b8960b288b2f07d258e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:37 +0000
Subject: [PATCH 28/34] fix: do not let a selector refer to the main string

Formatting such a string never ended: the stack overflowed.
---
 crates/localiser/src/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 665995a..79bf0c4 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1183,7 +1183,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1218,7 +1218,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1245,7 +1245,7 @@ fn part_pattern(
     } else if keyword_token.string.as_str() == "select" {
         let strings = pattern_selectors(tree, index)?;
         for (selector, named) in strings.iter() {
-            if !patterns.contains_key(named) {
+            if named == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
-- 
2.43.0


From 1acdf9e848506fcd369528827270d6e30c5208f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:03 +0000
Subject: [PATCH 29/34] fix: keep repository and component details of one
 moment together

---
 crates/provider/sqlite3/src/provider.rs | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 3a1ffa2..9f79e40 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -90,8 +90,10 @@ pub struct LocalisationProviderSqlite3 {
     connections: HashMap<String, (PathBuf, String)>, // ( ..., String) is schema_version
 
     // Cached data (long running sql queries)
-    repository_details: OnceMut<RefCount<RepositoryDetails>>,
-    component_details: OnceMut<HashMap<String, RefCount<ComponentDetails>>>,
+    details: OnceMut<(
+        RefCount<RepositoryDetails>,
+        HashMap<String, RefCount<ComponentDetails>>,
+    )>,
     #[allow(dead_code)]
     use_database_cache: bool, //TODO: This feature still to be implemented, once database schema is stabilised.
 }
@@ -239,8 +241,7 @@ impl LocalisationProviderSqlite3 {
             queries: MutCell::new(HashMap::<String, String>::new()),
             components,
             connections,
-            repository_details: OnceMut::new(),
-            component_details: OnceMut::new(),
+            details: OnceMut::new(),
             use_database_cache,
         })
     }
@@ -1127,10 +1128,9 @@ impl LocalisationProviderSqlite3 {
                 language_data.1.ratio = language_data.1.count as f32 / _count as f32;
             }
         }
-        let _ = self.component_details.set(components_details);
         let _ = self
-            .repository_details
-            .set(RefCount::new(repository_details));
+            .details
+            .set((RefCount::new(repository_details), components_details));
         Ok(())
     }
 }
@@ -1424,14 +1424,14 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
             identifier, component
         );
 
-        let components = match self.component_details.get() {
+        let details = match self.details.get() {
             None => {
                 self.build_cache()?;
-                self.component_details.get().unwrap()
+                self.details.get().unwrap()
             }
             Some(value) => value,
         };
-        match components.get(component) {
+        match details.1.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
                 let mut languages = Vec::<RefCount<LanguageTag>>::new();
@@ -1492,14 +1492,14 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         #[cfg(feature = "logging")]
         debug!("Getting component details for '{}'.", component);
 
-        let components = match self.component_details.get() {
+        let details = match self.details.get() {
             None => {
                 self.build_cache()?;
-                self.component_details.get().unwrap()
+                self.details.get().unwrap()
             }
             Some(value) => value,
         };
-        match components.get(component) {
+        match details.1.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(value) => Ok(RefCount::clone(value)),
         }
@@ -1540,12 +1540,12 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         #[cfg(feature = "logging")]
         debug!("Getting repository details.");
 
-        match self.repository_details.get() {
+        match self.details.get() {
             None => {
                 self.build_cache()?;
-                return Ok(RefCount::clone(self.repository_details.get().unwrap()));
+                return Ok(RefCount::clone(&self.details.get().unwrap().0));
             }
-            Some(value) => Ok(RefCount::clone(value)),
+            Some(value) => Ok(RefCount::clone(&value.0)),
         }
     }
 }
-- 
2.43.0


From d0dde3637957521c82e5c61a17cf6dcd3c68c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:06 +0000
Subject: [PATCH 30/34] fix: take all strings of a lookup from one moment of
 the file

---
 crates/provider/sqlite3/src/provider.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 9f79e40..945b170 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -397,6 +397,28 @@ impl LocalisationProviderSqlite3 {
         #[cfg(feature = "logging")]
         debug!("SQL query string: [{}].", _query.as_ref().unwrap());
 
+        // As long as this query is not finished, all queries of the connection see the file as of one moment.
+        let mut moment = match connection.prepare_cached("SELECT count(*) FROM component") {
+            Ok(value) => value,
+            Err(error) => {
+                return Err(ProviderError::Custom(RefCount::new(Box::new(
+                    ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
+                ))))
+            }
+        };
+        let mut moment_rows = match moment.query([]) {
+            Ok(value) => value,
+            Err(error) => {
+                return Err(ProviderError::Custom(RefCount::new(Box::new(
+                    ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
+                ))))
+            }
+        };
+        if let Err(error) = moment_rows.next() {
+            return Err(ProviderError::Custom(RefCount::new(Box::new(
+                ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
+            ))));
+        }
         let mut statement = match connection.prepare_cached(_query.unwrap().as_str()) {
             Ok(value) => value,
             Err(error) => {
-- 
2.43.0


From d1fdc70b7194e30b424b42ab7ac6b1d1454db856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 31/34] fix: do not keep the cache borrowed while formatting

---
 crates/localiser/src/localiser.rs | 42 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index f427312..16e500f 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -953,6 +953,7 @@ impl Localiser {
             identifier: identifier.to_string(),
             literal: false,
         };
+        let mut cached = None;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -966,35 +967,32 @@ impl Localiser {
                     .get(&key)
                     .filter(|entry| fallback || !entry.is_default)
                 {
-                    return match &result2.data {
+                    match &result2.data {
                         CacheData::Localised(string, tag) => {
-                            Ok((RefCount::clone(string), RefCount::clone(tag)))
+                            return Ok((RefCount::clone(string), RefCount::clone(tag)))
                         }
-
-                        #[cfg(not(feature = "sync"))]
                         CacheData::Formatter(formatter) => {
-                            match formatter.borrow_mut().format(self, values) {
-                                Err(error) => Err(LocaliserError::Formatter(error)),
-                                Ok(localised) => {
-                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
-                                }
-                            }
-                        }
-
-                        #[cfg(feature = "sync")]
-                        CacheData::Formatter(formatter) => {
-                            match formatter.write().unwrap().format(self, values) {
-                                Err(error) => Err(LocaliserError::Formatter(error)),
-                                Ok(localised) => {
-                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
-                                }
-                            }
+                            cached = Some(RefCount::clone(formatter));
                         }
                     };
                 }
             }
         }
 
+        // The cache is free while formatting, as the commands of the string may use the localiser too.
+        if let Some(formatter) = cached {
+            #[cfg(not(feature = "sync"))]
+            let mut binding = formatter.borrow_mut();
+
+            #[cfg(feature = "sync")]
+            let mut binding = formatter.write().unwrap();
+
+            return match binding.format(self, values) {
+                Err(error) => Err(LocaliserError::Formatter(error)),
+                Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
+            };
+        }
+
         // Not in cache.
         // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)`
         // may be for another language.
@@ -1084,7 +1082,7 @@ impl Localiser {
             self.add_to_cache(
                 language_tag,
                 key,
-                CacheData::Formatter(MutCell::new(formatter)),
+                CacheData::Formatter(RefCount::new(MutCell::new(formatter))),
                 is_default,
             );
         }
@@ -1284,7 +1282,7 @@ struct CacheEntry {
 
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
-    Formatter(MutCell<Formatter>),
+    Formatter(RefCount<MutCell<Formatter>>),
 }
 
 fn get_script_data(
-- 
2.43.0


From 0748f3bcb461f4df3d5970130c8d63153441e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 32/34] fix: let a command format the string it is part of

---
 crates/localiser/src/formatter.rs | 40 +++++++++++++++++++------------
 crates/localiser/src/localiser.rs | 14 ++++-------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 79bf0c4..a2e68df 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -188,15 +188,13 @@ impl Formatter {
 
     /// Format the language string with supplied values as [`HashMap`]`<`[`String`]`, `[`PlaceholderValue`]`>`.
     pub fn format(
-        &mut self,
+        &self,
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
-        // Numbers of previous use must not appear for number signs outside of plural patterns.
-        for number in self.numbers.iter_mut() {
-            number.clear();
-        }
-        let pattern_string = self.format_pattern(localiser, values, "_")?;
+        // The numbers belong to a single use of the formatter, as the commands of the string may use it too.
+        let mut numbers = self.numbers.clone();
+        let pattern_string = self.format_pattern(localiser, values, &mut numbers, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
 
@@ -212,9 +210,10 @@ impl Formatter {
     }
 
     fn format_pattern(
-        &mut self,
+        &self,
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
+        numbers: &mut [String],
         named: &str,
     ) -> Result<String, FormatterError> {
         let mut string = String::new();
@@ -417,6 +416,7 @@ impl Formatter {
                                 PlaceholderValue::FixedDecimal(number) => self.find_number_sign(
                                     localiser,
                                     values,
+                                    numbers,
                                     &mut string,
                                     number,
                                     plurals,
@@ -428,6 +428,7 @@ impl Formatter {
                                     self.find_number_sign(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         &fixed_decimal,
                                         plurals,
@@ -440,6 +441,7 @@ impl Formatter {
                                     self.find_number_sign(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         &fixed_decimal,
                                         plurals,
@@ -455,6 +457,7 @@ impl Formatter {
                                     self.find_number_sign(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         &fixed_decimal,
                                         plurals,
@@ -478,6 +481,7 @@ impl Formatter {
                                     self.find_number_sign(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         &fixed_decimal,
                                         plurals,
@@ -498,6 +502,7 @@ impl Formatter {
                                     self.select(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         value,
                                         *selectors_index,
@@ -508,6 +513,7 @@ impl Formatter {
                                     self.select(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         value.as_string(),
                                         *selectors_index,
@@ -518,6 +524,7 @@ impl Formatter {
                                     self.select(
                                         localiser,
                                         values,
+                                        numbers,
                                         &mut string,
                                         localised,
                                         *selectors_index,
@@ -536,7 +543,7 @@ impl Formatter {
                     #[cfg(feature = "logging")]
                     trace!("Formatting PatternPart::NumberSign");
 
-                    let Some(number_string) = self.numbers.get(*index) else {
+                    let Some(number_string) = numbers.get(*index) else {
                         return Err(FormatterError::NumberSignString(*index));
                     };
                     string.push_str(number_string.as_str());
@@ -583,9 +590,10 @@ impl Formatter {
 
     #[allow(clippy::too_many_arguments)]
     fn find_number_sign(
-        &mut self,
+        &self,
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
+        numbers: &mut [String],
         string: &mut String,
         fixed_decimal: &FixedDecimal,
         plurals: PluralRules,
@@ -630,20 +638,21 @@ impl Formatter {
                     _part = Some(part);
                 }
                 if let PatternPart::NumberSign(index) = _part.unwrap() {
-                    self.update_number_part(*index, &number_string)?
+                    self.update_number_part(numbers, *index, &number_string)?
                 }
                 i += 1;
             }
         }
-        let part_string = self.format_pattern(localiser, values, &_named)?;
+        let part_string = self.format_pattern(localiser, values, numbers, &_named)?;
         string.push_str(part_string.as_str());
         Ok(())
     }
 
     fn select(
-        &mut self,
+        &self,
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
+        numbers: &mut [String],
         string: &mut String,
         string_value: &String,
         selectors_index: usize,
@@ -658,17 +667,18 @@ impl Formatter {
                 selectors_index,
             ));
         };
-        let part_string = self.format_pattern(localiser, values, &named.to_string())?;
+        let part_string = self.format_pattern(localiser, values, numbers, &named.to_string())?;
         string.push_str(part_string.as_str());
         Ok(())
     }
 
     fn update_number_part(
-        &mut self,
+        &self,
+        numbers: &mut [String],
         index: usize,
         number_string: &String,
     ) -> Result<(), FormatterError> {
-        let Some(number_string_mut) = self.numbers.get_mut(index) else {
+        let Some(number_string_mut) = numbers.get_mut(index) else {
             return Err(FormatterError::NumberSignString(index));
         };
         *number_string_mut = number_string.to_string();
diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 16e500f..436d817 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -981,13 +981,7 @@ impl Localiser {
 
         // The cache is free while formatting, as the commands of the string may use the localiser too.
         if let Some(formatter) = cached {
-            #[cfg(not(feature = "sync"))]
-            let mut binding = formatter.borrow_mut();
-
-            #[cfg(feature = "sync")]
-            let mut binding = formatter.write().unwrap();
-
-            return match binding.format(self, values) {
+            return match formatter.format(self, values) {
                 Err(error) => Err(LocaliserError::Formatter(error)),
                 Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
             };
@@ -1046,7 +1040,7 @@ impl Localiser {
             }
             return Ok((string, localised.1));
         }
-        let mut formatter = match Formatter::try_new(self, localised.0.as_str(), &localised.1) {
+        let formatter = match Formatter::try_new(self, localised.0.as_str(), &localised.1) {
             Ok(value) => value,
             Err(error) => match error {
                 FormatterError::NoGrammar => {
@@ -1082,7 +1076,7 @@ impl Localiser {
             self.add_to_cache(
                 language_tag,
                 key,
-                CacheData::Formatter(RefCount::new(MutCell::new(formatter))),
+                CacheData::Formatter(RefCount::new(formatter)),
                 is_default,
             );
         }
@@ -1282,7 +1276,7 @@ struct CacheEntry {
 
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
-    Formatter(RefCount<MutCell<Formatter>>),
+    Formatter(RefCount<Formatter>),
 }
 
 fn get_script_data(
-- 
2.43.0


From 5412ef091fd11a6e0fbffe77b98c5cd1222ff929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 33/34] fix: keep using the same repository after the current
 directory changes

---
 crates/provider/sqlite3/src/provider.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 945b170..198f3c8 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -135,7 +135,13 @@ impl LocalisationProviderSqlite3 {
         #[cfg(feature = "sync")]
         let mut connections = HashMap::<String, (PathBuf, String)>::new();
 
-        let iterator = directory.read_dir()?; // If IO error is returned, usually it is a permission issue.
+        // Absolute paths remain valid when the current directory changes, and are never taken for URIs by Sqlite.
+        let absolute = if directory.is_absolute() {
+            directory.clone()
+        } else {
+            std::env::current_dir()?.join(&directory)
+        };
+        let iterator = absolute.read_dir()?; // If IO error is returned, usually it is a permission issue.
         for entry in iterator {
             let entry_data = entry?; // If IO error is returned, usually it is a permission issue.
             if let Some(extension) = entry_data.path().extension() {
-- 
2.43.0


From 47741ca3657182f3afa0001864b0e0ba5dea0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 34/34] fix: accept ISO 8601 times without a fraction of a
 second or with the zone Z

Both are documented as supported, but were refused as an empty or suffixed number of nanoseconds.
---
 crates/localiser/src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index a2e68df..f4e550b 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -989,7 +989,7 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_t,
         Some(pos) => &no_t[..pos],
     };
-    let trimmed = match no_plus.find('-') {
+    let trimmed = match no_plus.find(['-', 'Z']) {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
@@ -1023,7 +1023,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0

