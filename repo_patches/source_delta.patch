From 318f68bc3128878b0c882b4eb956fe8c493edc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 01/16] fix: identify variables by name in the writer, so that
 NaN attributes do not break it

A variable holding a NaN attribute is not equal to itself, so writing it or
closing the file failed with WriteError::Unexpected.
---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..6998f81 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -386,7 +386,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -453,7 +453,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -695,7 +695,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var.name == var_2.name)
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From be4304b7e6e549a3219e2cf5820ecb0397d576a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 02/16] fix: merge the records written by write_var_* with
 those already written

A write_var_* call after a write_record_* call on the same variable added a
second entry that close() did not look at, and close() overwrote the written
records with fill values.
---
 src/io/file_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 6998f81..35e54a4 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,8 +92,8 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let written_records: Vec<usize> = (0..var.num_chunks()).collect();
+            self.update_written_records(var, &written_records)?;
             Ok(())
         }
     };
-- 
2.43.0


From 14b932e6b98a77c4668dd921707e78f83d9e4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 03/16] fix: fill each unwritten variable on close according to
 its own number of chunks

close() used the number of records of the data set for the fixed-size variables
too: they were left unfilled without records, and filled several times, over
other data, with more than one record.
---
 src/io/file_writer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 35e54a4..a58f768 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -379,17 +379,16 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var.name == var_2.name)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
-                    None => all_records.clone().into_iter().collect(),
+                    None => all_records.into_iter().collect(),
                     Some(written_records) => all_records.difference(&written_records).cloned().collect(),
                 };
                 not_written_records.push((var, not_written_record));
-- 
2.43.0


From 0b3dcad8e150489e251343647769d3b70b60fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 04/16] fix: bound record indexes by the number of chunks of
 the variable

Reading or writing a record of a fixed-size variable was bounded by the number
of records of the data set: other data was read or overwritten, or the only
record was refused.
---
 src/io/file_reader.rs | 2 +-
 src/io/file_writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..b862b34 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables have exactly one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index a58f768..80066b1 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -109,7 +109,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // fixed-size variables have exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
-- 
2.43.0


From 5b6c23fea3257ebd5899ebb56a9a12818315532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 05/16] fix: renaming a global attribute to its own name is not
 an error

---
 src/data_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..87c539d 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1063,7 +1063,7 @@ impl DataSet {
     pub fn rename_global_attr(&mut self, old_attr_name: &str, new_attr_name: &str) -> Result<(), InvalidDataSet> {
         // Check that both names are different
         if old_attr_name == new_attr_name {
-            // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From 1d7c150592dd6b3de5056e63fb7fb94d503fc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 06/16] fix: pad the attribute values of the header with zeros

They were padded with the fill value of their type, which the NetCDF-3 format
does not allow and which FileReader refuses.
---
 src/io/file_writer.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 80066b1..9c9e396 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -573,14 +573,21 @@ impl<'a> FileWriter<'a> {
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
-            num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+            let mut data_bytes: Vec<u8> = vec![];
+            match &attr.data {
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut data_bytes, slice)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut data_bytes, slice)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut data_bytes, slice)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut data_bytes, slice)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut data_bytes, slice)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut data_bytes, slice)?,
             };
+            // The padding bytes are zeros in the header (not the fill value)
+            let num_useful_bytes: usize = num_elements * attr.data_type().size_of();
+            for byte in data_bytes.iter_mut().skip(num_useful_bytes) {
+                *byte = 0;
+            }
+            num_bytes += out_stream.write(&data_bytes)?;
 
             Ok(num_bytes)
         }
-- 
2.43.0


From 635339dc3729884b988954ae7d9852582f9e9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 07/16] fix: report a partially written header

The number of bytes accepted by the last write of the header was not checked,
so that set_def() could succeed with an incomplete header on a full disk.
---
 src/io/file_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 9c9e396..a972334 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -499,6 +499,10 @@ impl<'a> FileWriter<'a> {
         for _ in 0..*zero_padding_size {
             num_bytes +=  self.output_file.write(&[0_u8])?;
         }
+        // Check that the whole header has been written
+        if num_bytes != data_set_metadata.header_required_size + data_set_metadata.header_zero_padding_size {
+            return Err(WriteError::IOErrorKind(std::io::ErrorKind::WriteZero));
+        }
         Ok(num_bytes)
     }
 
-- 
2.43.0


From a7198fcbd5b36c8ea1d198661cbd01f7abd0c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 08/16] fix: refuse the files defining the same variable twice

---
 src/io/file_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index b862b34..218fd9d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -40,7 +40,7 @@ use crate::{
     DataVector,
     Variable,
     Version,
-    error::ReadError,
+    error::{InvalidDataSet, ReadError},
     error::parse_header_error::{ParseHeaderError, ParseHeaderErrorKind, NomError},
     io::{compute_padding_size, Offset, ABSENT_TAG, DIMENSION_TAG, VARIABLE_TAG, ATTRIBUTE_TAG},
 };
@@ -558,6 +558,9 @@ impl FileReader {
         // Append the variables
         let mut record_var_begin_offsets: Vec<Offset> = vec![];  // used to computed the number of records if necessaray
         for var_info in var_info_list.iter() {
+            if data_set.has_var(&var_info.name) {
+                return Err(InvalidDataSet::VariableAlreadyExists(var_info.name.clone()).into());
+            }
             let dim_refs: Vec<Rc<Dimension>> = data_set.get_dims_from_dim_ids(&var_info.dim_ids)?;
             // Create the variable the variable
             let var: &Variable = data_set.add_var_using_dim_refs(&var_info.name, dim_refs, var_info.data_type.clone())?;
-- 
2.43.0


From b8822456a3de554ea7a689a1fdd748bcfb184de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 09/16] fix: do not underflow when the records of an
 indeterminate number begin after the end of the file

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 218fd9d..8a674e5 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -606,7 +606,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
-- 
2.43.0


From 6ee93c3aa6d2687fd3964620bf8888f94f044fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 10/16] fix: refuse the negative begin offsets

---
 src/io/file_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 8a674e5..ceaf7ed 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -815,12 +815,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |offset: &i32| *offset >= 0_i32)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |offset: &i64| *offset >= 0_i64)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From b5daf379ec3ae04f116fac457566bed652f8e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 11/16] fix: do not allocate memory for counts that the file
 cannot hold

The counts of the header were trusted before checking that the corresponding
bytes exist: a malformed file of a few bytes could abort the process.
---
 src/io/file_reader.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index ceaf7ed..d55244a 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -416,6 +416,11 @@ impl FileReader {
             let num_bytes: usize = chunk_len * data_type.size_of();
             compute_padding_size(num_bytes)
         };
+        let num_bytes: usize = match var.num_chunks() {
+            0 => 0,
+            num_chunks => (num_chunks - 1) * record_size + chunk_len * data_type.size_of(),
+        };
+        self.check_available_bytes(begin_offset, num_bytes)?;
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -478,6 +483,7 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        self.check_available_bytes(record_offset, var.chunk_len() * var.data_type().size_of())?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
@@ -711,6 +717,12 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the data is available before allocating memory
+        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
+        take(num_of_bytes)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
+
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -724,7 +736,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -756,7 +767,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -784,7 +795,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -802,7 +813,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
@@ -869,6 +880,15 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    // Checks that the file contains the bytes to read, before allocating memory for them.
+    fn check_available_bytes(&self, offset: u64, num_bytes: usize) -> Result<(), ReadError> {
+        let file_size: u64 = self.input_file.metadata()?.len();
+        match offset.checked_add(num_bytes as u64) {
+            Some(end) if end <= file_size || num_bytes == 0 => Ok(()),
+            _ => Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof)),
+        }
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From e3d2465015182288c35cd50c87ebf5ffc99085c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 12/16] fix: refuse the headers whose data size cannot be
 represented

The lengths of the variables overflowed, and the reader panicked.
---
 src/io/file_reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index d55244a..34f179b 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -601,6 +601,9 @@ impl FileReader {
             }
         }
 
+        // Check that the size of the data can be represented
+        FileReader::compute_data_size(&data_set).ok_or(ReadError::Unexpected)?;
+
         if !num_records_is_determinated {
             // Case an *unlimited-size* dim s defined
             if let Some(dim) = data_set.get_unlimited_dim() {
@@ -634,6 +637,18 @@ impl FileReader {
         Ok((data_set, version, var_info_list))
     }
 
+    // Computes an upper bound of the number of bytes of the data, returns `None` if it cannot be represented.
+    fn compute_data_size(data_set: &DataSet) -> Option<i64> {
+        data_set.vars.iter().try_fold(0_i64, |sum: i64, var: &Variable| {
+            // the size of the *unlimited-size* dimension may be zero
+            let num_elements: i64 = var.dims.iter().try_fold(1_i64, |product: i64, dim: &Rc<Dimension>| {
+                product.checked_mul(i64::try_from(std::cmp::max(dim.size(), 1)).ok()?)
+            })?;
+            let num_bytes: i64 = num_elements.checked_mul(2 * std::mem::size_of::<f64>() as i64)?;  // including the padding bytes
+            sum.checked_add(num_bytes)
+        })
+    }
+
     fn parse_magic_word(input: &[u8]) -> Result<(&[u8], &[u8]), ParseHeaderError>
     {
         let (input, tag_value): (&[u8], &[u8]) = tag(&b"CDF"[..])(input).map_err(|err: NomError|{
-- 
2.43.0


From a5ecb2d4f0f5105c7d06339eb6e5580dfe796221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 13/16] fix: remain without definition when the header cannot
 be stored

---
 src/io/file_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index a972334..4ba7780 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -351,7 +351,12 @@ impl<'a> FileWriter<'a> {
             Some(_) => return Err(WriteError::HeaderAlreadyDefined),
             None => self.header_def = Some(HeaderDefinition::new(data_set, version, header_min_size)?),
         }
-        let _ = self.write_header()?;
+        // If the header cannot be stored then the writer remains without definition, and the file without content
+        if let Err(err) = self.write_header() {
+            self.header_def = None;
+            let _ = self.output_file.set_len(0);
+            return Err(err);
+        }
         Ok(())
     }
 
-- 
2.43.0


From dcdbae25f0d4ba7feb7bcd442809473e9c2738a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 14/16] fix: read the variables without records whatever their
 offset

---
 src/io/file_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 34f179b..7086e18 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -420,6 +420,10 @@ impl FileReader {
             0 => 0,
             num_chunks => (num_chunks - 1) * record_size + chunk_len * data_type.size_of(),
         };
+        // Without records there is nothing to read, the offset may even be further than the storage can seek
+        if num_bytes == 0 {
+            return Ok(DataVector::new(data_type, 0));
+        }
         self.check_available_bytes(begin_offset, num_bytes)?;
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
-- 
2.43.0


From 432f3233432b9b3d7437fdbdd0f7f34b0bc522b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 15/16] fix: FileReader::open ignored the number of bytes
 actually read, a short read left zeros in the header and an interrupted one
 failed

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 7086e18..7520a9f 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From c1aafd7f222497f5f0739c96a5a680f8b83dce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 16/16] fix: setting the definition failed when the storage
 took the header in parts or the transfer was interrupted

---
 src/io/file_writer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 4ba7780..af2595f 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -470,12 +470,13 @@ impl<'a> FileWriter<'a> {
 
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
-        self.output_file.seek(SeekFrom::Start(0))?;
+        // The header is built in memory, the storage may take its bytes in several parts
+        let mut header_bytes: Vec<u8> = vec![];
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += header_bytes.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += header_bytes.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -489,20 +490,24 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += header_bytes.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut header_bytes, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut header_bytes, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut header_bytes, &data_set_metadata.vars_metadata)?;
+        // Write the header, then the reserved space after it
+        self.output_file.seek(SeekFrom::Start(0))?;
+        self.output_file.write_all(&header_bytes)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            self.output_file.write_all(&[0_u8])?;
+            num_bytes += 1;
         }
         // Check that the whole header has been written
         if num_bytes != data_set_metadata.header_required_size + data_set_metadata.header_zero_padding_size {
-- 
2.43.0

