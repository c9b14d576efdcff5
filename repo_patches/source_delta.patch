From fb7fbc9a7c07b6d9416bb40bdd0a301fed8235e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 01/39] fix: ImageBase::getHeight() returned the width; offset
 was not initialised

---
 boofcpp/src/boofcv/image_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..ad6c4c5 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -28,6 +28,7 @@ namespace boofcv {
         ImageBase() {
             this->width = 0;
             this->height = 0;
+            this->offset = 0;
             this->stride = 0;
             this->subimage = false;
         }
@@ -44,7 +45,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From 79acb8748bc6f3ebad2e1790a9c887730433c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 02/39] fix: ImageStatistics::min/max ignored the view's offset
 and stride, and max of negative floating point pixels

---
 boofcpp/src/boofcv/image_statistics.h | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -26,14 +28,16 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From 8d028467585c656ee81222bc6572add6610d5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 03/39] fix: mean of pixels or bands with a negative sum was
 computed with unsigned division

---
 boofcpp/src/boofcv/image_convert.h    | 2 +-
 boofcpp/src/boofcv/image_statistics.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..bb0a213 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -60,7 +60,8 @@ namespace boofcv {
         template<class T>
         static T mean( const Gray<T>& input) {
             typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            // the pixel count has the sum's type. An unsigned count would turn a negative sum into a huge positive number
+            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From 803f98c64126e46cad5a74c8f344a5a048d84228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 04/39] fix: fill(Interleaved) and fill_uniform wrote to the
 parent's memory instead of the view

---
 boofcpp/src/boofcv/image_misc_ops.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
@@ -80,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 40426845fb95002bb1613f5150f7239cdc3a3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 05/39] fix: GrowArray::resize left stale values in new
 elements; fill and resize set bytes instead of elements

---
 boofcpp/src/boofcv/base_types.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..3a3ca79 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -143,16 +143,20 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            for( uint32_t i = this->size; i < new_size; i++ ) {
+                this->data[i] = default_value;
+            }
             this->size = new_size;
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ ) {
+                this->data[i] = value;
+            }
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 7bae9d95064a19e658984710e47499c1a15b6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/39] fix: copying a GrowArray shared its memory, which was
 then freed twice; a refused assignment changed the default value

---
 boofcpp/src/boofcv/base_types.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 3a3ca79..46fb073 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -108,6 +108,11 @@ namespace boofcv {
             }
         }
 
+        GrowArray( const GrowArray<T>& other ) : GrowArray(other.size) {
+            this->default_value = other.default_value;
+            std::memcpy(this->data,other.data,sizeof(T)*other.size);
+        }
+
         ~GrowArray() {
             if( !can_resize )
                 return;
@@ -172,8 +177,8 @@ namespace boofcv {
         GrowArray<T>& operator=(const GrowArray<T>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
-                this->default_value = other.default_value;
                 this->grow_array(other.size);
+                this->default_value = other.default_value;
                 this->size = other.size;
                 std::memcpy(this->data,other.data,sizeof(T)*other.size);
             }
-- 
2.43.0


From a498ab0919ee479ecfdc6defefe9b5ef5b406395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 07/39] fix: Gray's list constructor leaked its memory when the
 rows have different widths

---
 boofcpp/src/boofcv/image_types.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ad6c4c5..7f10b0f 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -116,6 +116,12 @@ namespace boofcv {
             } else {
                 this->width = static_cast<uint32_t >(l.begin()->size());
             }
+            // check before memory is declared, the destructor isn't called when a constructor throws
+            for (auto& x : l ) {
+                if( x.size() != this->width ) {
+                    throw invalid_argument("width missmatch");
+                }
+            }
             this->data = new T[this->width*this->height]();
             this->data_length = this->width*this->height;
             this->offset = 0;
@@ -124,9 +130,6 @@ namespace boofcv {
             
             T* ptr = this->data;
             for (auto& x : l ) {
-                if( x.size() != this->width ) {
-                    throw invalid_argument("width missmatch");
-                }
                 for(auto& y : x ) {
                     *ptr++ = y;
                 }
-- 
2.43.0


From 4c12cba35b82f541aebf6d70b6c14c44eb55ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 08/39] fix: copying a Gray shared memory that was freed twice;
 assigning a sub-image leaked the old pixels

---
 boofcpp/src/boofcv/image_types.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 7f10b0f..f074816 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <exception>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 using namespace std;
@@ -139,6 +140,13 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * Copy constructor. The copy of a sub-image is a sub-image of the same parent, otherwise the pixels are copied.
+         */
+        Gray( const Gray<T>& other ) : Gray(other.subimage ? 0 : other.width, other.subimage ? 0 : other.height) {
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
@@ -205,6 +213,20 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    if( !this->subimage ) {
+                        if( this->data == other.data ) {
+                            // sub-image of this image. The memory can't be released so crop this image instead
+                            Gray<T> cropped(other.width,other.height);
+                            cropped.copy(other);
+                            std::swap(this->data,cropped.data);
+                            std::swap(this->data_length,cropped.data_length);
+                            this->width = cropped.width;
+                            this->height = cropped.height;
+                            this->stride = cropped.stride;
+                            return *this;
+                        }
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
-- 
2.43.0


From a3e6e360da9f8c8a4450ed16fef73f50ebcbc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 09/39] fix: Planar's destructor, setNumberOfBands, at and
 setTo did not compile or corrupted memory

---
 boofcpp/src/boofcv/image_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index f074816..2b3e449 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -275,7 +275,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
@@ -294,7 +294,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
@@ -319,7 +319,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
@@ -334,7 +334,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From f0140afd13359f8eba8b401d10d983082fd3f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 10/39] fix: copying an Interleaved or Planar image shared
 memory that was freed twice

---
 boofcpp/src/boofcv/image_types.h | 53 ++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 2b3e449..c57a43d 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -269,6 +269,10 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(other.width,other.height,other.num_bands) {
+            this->setTo(other);
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -338,6 +342,14 @@ namespace boofcv {
             }
         }
 
+        Planar<T>& operator=(const Planar<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                this->setTo(other);
+            }
+            return *this;
+        }
+
         T& getBand( uint32_t which ) const {
             if( which >= this->num_bands )
                 throw invalid_argument("Requested an out of bounds band");
@@ -389,6 +401,13 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * Copy constructor. The copy of a sub-image is a sub-image of the same parent, otherwise the pixels are copied.
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved() {
+            *this = other;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
@@ -486,6 +505,40 @@ namespace boofcv {
             }
         }
 
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage ) {
+                    if( !this->subimage ) {
+                        if( this->data == other.data ) {
+                            // sub-image of this image. The memory can't be released so crop this image instead
+                            Interleaved<T> cropped(other.width,other.height,other.num_bands);
+                            cropped.setTo(other);
+                            std::swap(this->data,cropped.data);
+                            std::swap(this->data_length,cropped.data_length);
+                            this->width = cropped.width;
+                            this->height = cropped.height;
+                            this->num_bands = cropped.num_bands;
+                            this->stride = cropped.stride;
+                            return *this;
+                        }
+                        delete []this->data;
+                    }
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
+
         Interleaved<T> makeSubimage( uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1 ) {
             if( x1 < x0 || y1 < y0 )
                 throw invalid_argument("Upper bounds can't be lower than lower bounds");
-- 
2.43.0


From 6bb2b049554acd26b963129af10178c6ddf3af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 11/39] fix: Interleaved::setTo copied only part of each row
 for pixels wider than a byte

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index c57a43d..861a1a2 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -501,7 +501,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From bf8f0710cef8e28a40648539479aee3181bc39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 12/39] fix: Interleaved::at accepted bands that do not exist

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 861a1a2..0258405 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -463,7 +463,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
-- 
2.43.0


From 5353144f0b547846b547ec8ce3608fe569f21e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 13/39] fix: erode4 and dilate4 never wrote the image border
 and read outside tiny images

---
 boofcpp/src/boofcv/binary_ops.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..3329f9d 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -39,13 +39,31 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
     }
 }
 
+// Applies the 4-connect rule to the pixels along the image border. Pixels outside of the image are zero.
+// The output is one if at least 'minimum' pixels in the neighborhood are one
+static void border4( const Gray<U8>& input, Gray<U8>& output , int minimum ) {
+    for( uint32_t y = 0; y < input.height; y++ ) {
+        const bool inside = y > 0 && y+1 < input.height && input.width > 1;
+        const uint32_t step = inside ? input.width-1 : 1;
+        for( uint32_t x = 0; x < input.width; x += step ) {
+            int sum = input.unsafe_at(x,y);
+            if( x > 0 ) sum += input.unsafe_at(x-1,y);
+            if( y > 0 ) sum += input.unsafe_at(x,y-1);
+            if( x+1 < input.width ) sum += input.unsafe_at(x+1,y);
+            if( y+1 < input.height ) sum += input.unsafe_at(x,y+1);
+            output.unsafe_at(x,y) = static_cast<U8>(sum >= minimum);
+        }
+    }
+}
+
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
+    border4(input,output,5);
 
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-    for (uint32_t y = 1; y < h; y++) {
+    for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
         uint32_t indexOut = output.offset + y * output.stride + 1;
 
@@ -63,11 +81,12 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
+    border4(input,output,1);
 
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-    for (uint32_t y = 1; y < h; y++) {
+    for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
         uint32_t indexOut = output.offset + y * output.stride + 1;
 
-- 
2.43.0


From 5b547cc95d630cfd3084bef2686266d576c8a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 14/39] fix: the vertical mean filter compared the kernel with
 the image's width and read outside short images

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From 960c7bef548b3a932e1355e53bce5b7c0421a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 15/39] fix: normalize only scaled the first row of a 2D kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..4c8f511 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 8a27639c23223cd7b765cf61101e2eafc1ddbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 16/39] fix: gaussian2D did not use the width derived from
 sigma

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4c8f511..37f1465 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -333,6 +333,8 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
+            // the width is derived from sigma when it's not specified
+            width = seed.width;
             Kernel2D<E> output(width,width/2);
 
             for( int i = 0; i < width; i++ ) {
-- 
2.43.0


From 3252b72497c45602e5a4ff62adf4127fba7092e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 17/39] fix: Kernel2D's list constructor accepted an origin
 outside the kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 37f1465..d1aa826 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -165,10 +165,8 @@ namespace boofcv {
         Kernel2D( uint32_t width ) : Kernel2D(width,width/2) {
         }
 
-        Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) {
-            this->width = static_cast<uint32_t >(l.size());
-            this->offset = offset;
-
+        Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l )
+                : KernelBase<E>((uint32_t)l.size(),offset) {
             this->data.resize(this->width*this->width);
 
             E* ptr = this->data.data;
-- 
2.43.0


From c9718547b17747fb69a62dfa39c277621b3a5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 18/39] fix: ConvolveNormalizedNaive::vertical truncated kernel
 weights to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..48deba5 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
@@ -340,7 +340,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From 7ed9f67fe00833d2d1577bde329cc62aa718ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 19/39] fix: reflected and wrapped borders read outside the
 image when the coordinate was more than one image away

---
 boofcpp/src/boofcv/image_border.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..f6bae26 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,18 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            const auto length = static_cast<int32_t>(max_value);
+            if( length == 1 ) {
+                x = 0;
+                return;
+            }
+            // can be reflected several times when far outside the image
+            const int32_t period = 2*(length-1);
+            x %= period;
             if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+                x += period;
+            if( x >= length )
+                x = period-x;
         }
     };
 
@@ -112,10 +120,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            const auto length = static_cast<int32_t>(max_value);
+            x %= length;
             if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+                x += length;
         }
     };
 
-- 
2.43.0


From 10fac4f603d7666f79c808d617d77b7a80a92fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 20/39] fix: the Otsu threshold of an image ignored the minimum
 value its histogram starts at

---
 boofcpp/src/boofcv/binary_ops.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..cade310 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -109,7 +109,7 @@ namespace boofcv
          * @return Selected threshold.
          */
         template<class T>
-        static uint32_t computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+        static T computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
 
             auto range = static_cast<uint32_t>(1+max_value - min_value);
             GrowArray<uint32_t> histogram(range);
@@ -119,7 +119,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram starts at min_value
+            return static_cast<T>(otsu.threshold + min_value);
         }
 
         /**
-- 
2.43.0


From d05bdaacdb837810cffadddd4bd996b9418c2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 21/39] fix: ThresholdBlockMinMax computed the wrong maximum
 for negative floating point pixels

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..08824d1 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -444,7 +444,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
-- 
2.43.0


From c5949c070f80daaa5c898049f4cbf4165f428ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 22/39] fix: block thresholds divided by zero when the
 requested block length is zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 08824d1..ca5914d 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,9 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be at least one pixel");
+            }
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From 08e554fe1fe78dfd5a5ce8503d8b9222bacd8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 23/39] fix: a negative minimum spread marked every pixel as
 textureless instead of disabling the check

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index ca5914d..6e50b1a 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -462,7 +462,8 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            // not cast to sum_type, which can be unsigned. A negative value disables the check
+            const float textureThreshold = this->minimumSpread;
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
-- 
2.43.0


From d4f37ac9093f344099af899a7be850d8e8dde020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 24/39] fix: ThresholdBlockMean divided the sum of negative
 block means by an unsigned count

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 6e50b1a..577d52b 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -231,7 +231,7 @@ namespace boofcv
                     sum += this->stats.unsafe_at(x,y,0);
                 }
             }
-            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
+            E mean = sum/static_cast<typename TypeInfo<E>::sum_type>((blockY1-blockY0+1)*(blockX1-blockX0+1));
 
             // apply threshold
             for (uint32_t y = y0; y < y1; y++) {
-- 
2.43.0


From f09e1ff4605dc2160d0e4af1c9f52347915b672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 25/39] fix: the low texture penalty of ComputeOtsu overflowed
 an int for strong tuning

---
 boofcpp/src/boofcv/binary_ops.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 3329f9d..a8da352 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -123,9 +123,10 @@ void boofcv::ComputeOtsu::compute(const GrowArray<uint32_t>&histogram , uint32_t
     // apply optional penalty to low texture regions
     variance += 0.001; // avoid divide by zero
     // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
-    int adjustment =  (int)(tuning*threshold*tuning*threshold/variance+0.5);
+    // can be larger than an int when there's little texture
+    double adjustment = std::floor(tuning*threshold*tuning*threshold/variance+0.5);
     threshold += down ? -adjustment : adjustment;
-    threshold = (int)(scale*std::max(threshold,0.0)+0.5);
+    threshold = std::floor(scale*std::max(threshold,0.0)+0.5);
 }
 
 void boofcv::ComputeOtsu::computeOtsu(const GrowArray<uint32_t>& histogram , uint32_t totalPixels ) {
-- 
2.43.0


From 2465bb3261d8314c47e3aed6544263f1c2614777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 26/39] fix: localMean with an unspecified width tried to blur
 with a radius of two billion

---
 boofcpp/src/boofcv/binary_ops.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index cade310..fcfb71e 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -178,6 +178,9 @@ namespace boofcv
                                const ConfigLength& width , float scale , bool down ,
                                Gray<T>& storage1 , Gray<T>&  storage2 ) {
 
+            if( width.computeI(min(input.width,input.height)) < 0 )
+                throw invalid_argument("Width of the local region is not specified");
+
             output.reshape(input.width, input.height);
             storage1.reshape(input.width, input.height);
             storage2.reshape(input.width, input.height);
-- 
2.43.0


From de6cda3d3d8ec1a96b7bcf3c595e83c0c241f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 27/39] fix: ThresholdBlockMean wrapped around when the scaled
 mean of a block exceeds the pixel type

---
 boofcpp/src/boofcv/threshold_block_filters.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 577d52b..9c75125 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -267,9 +267,12 @@ namespace boofcv
                     sum += *ptr++;
                 }
             }
-            if( std::numeric_limits<sum_type>::is_integer )
+            if( std::numeric_limits<sum_type>::is_integer ) {
                 sum = static_cast<sum_type>(scale*sum/(width*height)+0.5f);
-            else {
+                // a scale larger than one can exceed what a pixel can hold
+                sum = std::min(sum,static_cast<sum_type>(std::numeric_limits<E>::max()));
+                sum = std::max(sum,static_cast<sum_type>(std::numeric_limits<E>::lowest()));
+            } else {
                 sum = static_cast<sum_type>(scale*sum/(width*height));
             }
             this->stats.data[indexStats] = static_cast<E>(sum);
-- 
2.43.0


From df94676ef16016e6a9522a04df9be2a55bff60d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:23 +0000
Subject: [PATCH 28/39] fix: erode4 and dilate4 wrote outside of images that
 have no columns

---
 boofcpp/src/boofcv/binary_ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index a8da352..5f8266d 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -61,7 +61,7 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     border4(input,output,5);
 
     const int h = input.height - 1;
-    const int w = input.width - 2;
+    const int w = input.width > 2 ? input.width - 2 : 0;
 
     for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
@@ -84,7 +84,7 @@ void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     border4(input,output,1);
 
     const int h = input.height - 1;
-    const int w = input.width - 2;
+    const int w = input.width > 2 ? input.width - 2 : 0;
 
     for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
-- 
2.43.0


From 0854db74c1e60e17027802025abb118b13275ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 29/39] fix: native methods leaked Java arrays and let C++
 exceptions leave when a call failed

Arrays are now held by an object which always releases them, every native method passes
failures on as a Java exception, results of JNI calls which can fail are checked, kernels whose
data is too short are refused and a destroyed filter isn't destroyed again.
---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 165 +++++++++++++-----
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         |  28 +++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  |  59 +++----
 .../src/main/cpp/NativeBlockMinMax.cpp        |  59 +++----
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  |  59 +++----
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  | 106 ++++++++---
 .../src/main/cpp/NativeGlobalFixed.cpp        |  59 +++----
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp |  59 +++----
 .../src/main/cpp/NativeImageBlurOps.cpp       |  71 ++++----
 .../src/main/cpp/NativeImageConvolve.cpp      | 126 +++++++------
 .../cpp/NativeImageConvolveNormalized.cpp     |  67 ++++---
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  |  59 +++----
 12 files changed, 525 insertions(+), 392 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..f8f7d93 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,9 +1,49 @@
 #include "JNIBoofCPP.h"
 #include <stdexcept>
+#include <memory>
 #include <packed_sets.h>
 
 using namespace boofcv;
 
+CriticalArray::CriticalArray( JNIEnv *env, jobject jdata, jint mode )
+: env(env), array((jarray)jdata), mode(mode)
+{
+    this->data = env->GetPrimitiveArrayCritical(this->array, 0);
+    if( this->data == nullptr ) {
+        throw std::runtime_error("failed GetPrimitiveArrayCritical");
+    }
+}
+
+CriticalArray::~CriticalArray() {
+    this->env->ReleasePrimitiveArrayCritical(this->array, this->data, this->mode);
+}
+
+static void throwRuntimeException( JNIEnv *env , const char* message ) {
+    // if it failed because of a Java exception then that's the one which should be passed on
+    if( env->ExceptionCheck() )
+        return;
+    jclass exceptionClass = env->FindClass("java/lang/RuntimeException");
+    if( exceptionClass != nullptr )
+        env->ThrowNew(exceptionClass, message);
+}
+
+void throwJavaException( JNIEnv *env ) {
+    try {
+        throw;
+    } catch( const std::exception& e ) {
+        throwRuntimeException(env, e.what());
+    } catch( const char* e ) {
+        throwRuntimeException(env, e);
+    } catch( ... ) {
+        throwRuntimeException(env, "unknown native exception");
+    }
+}
+
+// Java method calls report a failure by leaving an exception pending
+static void checkException( JNIEnv *env , const char* message ) {
+    if( env->ExceptionCheck() )
+        throw std::runtime_error(message);
+}
 
 WrapJGrowQueue_I32::WrapJGrowQueue_I32(JNIEnv *env, jobject jobj)
 : env(env), jobj(jobj), data(nullptr), size(0)
@@ -33,6 +73,9 @@ WrapJGrowQueue_I32::~WrapJGrowQueue_I32() {
 
 void WrapJGrowQueue_I32::criticalGet() {
     this->data = (jint *)env->GetPrimitiveArrayCritical(array_object, 0);
+    if( this->data == nullptr ) {
+        throw std::runtime_error("failed GetPrimitiveArrayCritical");
+    }
 }
 
 void WrapJGrowQueue_I32::criticalRelease() {
@@ -42,6 +85,9 @@ void WrapJGrowQueue_I32::criticalRelease() {
 
 void WrapJGrowQueue_I32::regularGet() {
     this->data = (jint *)env->GetIntArrayElements((jintArray)array_object, 0);
+    if( this->data == nullptr ) {
+        throw std::runtime_error("failed GetIntArrayElements");
+    }
 }
 
 void WrapJGrowQueue_I32::regularRelease() {
@@ -79,6 +125,7 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 //    printf("ENTER resize. desired = %d\n",desired);
 
     env->CallVoidMethod(jobj,methodResize,(jint)desired);
+    checkException(env,"failed to resize GrowQueue_I32");
     this->size = desired;
 
     // See if the array has been resized
@@ -109,34 +156,48 @@ void copy_into_java( JNIEnv *env,
 
     jobject object_blocks = env->GetObjectField (dst, field_blocks);
     jobject object_sets = env->GetObjectField (dst, field_sets);
+    if( object_blocks == nullptr || object_sets == nullptr ) {
+        throw std::runtime_error("packed set storage is null");
+    }
     jclass class_fastqueue = env->GetObjectClass(object_blocks);
 
     jmethodID method_resize =  safe_GetMethodID(env, class_fastqueue, "resize", "(I)V");
     jmethodID method_get =  safe_GetMethodID(env, class_fastqueue, "get", "(I)Ljava/lang/Object;");
 
     env->CallVoidMethod(object_blocks,method_resize,(jint)src._number_of_blocks);
+    checkException(env,"failed to resize blocks");
     env->CallVoidMethod(object_sets,method_resize,(jint)src.set_info.size());
+    checkException(env,"failed to resize sets");
 
     for( uint32_t block_idx = 0; block_idx < src._number_of_blocks; block_idx++ ) {
         jobject the_array = env->CallObjectMethod(object_blocks,method_get,(jint)block_idx);
+        checkException(env,"failed to get a block");
+        if( the_array == nullptr ) {
+            throw std::runtime_error("block is null");
+        }
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
-        auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
+        CriticalArray critical(env,the_array,0);
+        auto array_dst = (jint *)critical.data;
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
             array_dst[j*2  ] = array_src[j].x;
             array_dst[j*2+1] = array_src[j].y;
         }
-        env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
     }
 
-    jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
+    jclass class_blockindexlength = safe_FindClass(env,"boofcv/struct/BlockIndexLength");
     jmethodID method_bil_set =  safe_GetMethodID(env, class_blockindexlength, "set", "(III)V");
 
     for( uint32_t i = 0; i < src.set_info.size(); i++ ) {
         const PackedSetInfo& set_info = src.set_info[i];
 
         jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
+        checkException(env,"failed to get a set");
+        if( jset == nullptr ) {
+            throw std::runtime_error("set is null");
+        }
         env->CallVoidMethod(jset,method_bil_set,set_info.offset*2,set_info.size,set_info.block);
+        checkException(env,"failed to assign a set");
         env->DeleteLocalRef(jset);
     }
 }
@@ -154,7 +215,7 @@ jclass safe_FindClass( JNIEnv *env, const char* name )
 jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , const char* type)
 {
     jfieldID fid = env->GetFieldID(objClass, name, type);
-    if( env->ExceptionCheck() ) {
+    if( env->ExceptionCheck() || fid == nullptr ) {
         env->ExceptionDescribe();
         throw "failed GetFieldID";
     }
@@ -164,7 +225,7 @@ jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , cons
 jmethodID safe_GetMethodID( JNIEnv *env, jclass& objClass, const char* name , const char* type)
 {
     jmethodID fid = env->GetMethodID(objClass, name, type);
-    if( env->ExceptionCheck() ) {
+    if( env->ExceptionCheck() || fid == nullptr ) {
         env->ExceptionDescribe();
         throw "failed GetMethodID";
     }
@@ -181,6 +242,20 @@ jint safe_GetInt( JNIEnv *env, jclass& objClass, jobject& obj, const char* name
     return env->GetIntField(obj, fid);
 }
 
+jboolean safe_GetBoolean( JNIEnv *env, jclass& objClass, jobject& obj, const char* name ) {
+    jfieldID fid = safe_GetFieldID(env,objClass,name,"Z");
+    return env->GetBooleanField(obj, fid);
+}
+
+jlong safe_GetNativePtr( JNIEnv *env, jclass& objClass, jobject& obj ) {
+    jfieldID fid = safe_GetFieldID(env,objClass,"nativePtr","J");
+    jlong nativePtr = env->GetLongField(obj, fid);
+    if( nativePtr == 0 ) {
+        throw std::runtime_error("native object doesn't exist");
+    }
+    return nativePtr;
+}
+
 JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage ) {
     JImageInfoU8 ret;
 
@@ -369,20 +444,22 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("kernel data is null");
+    }
     jint length = env->GetArrayLength((jintArray)jarray);
+    if( width < 0 || length < width ) {
+        throw std::invalid_argument("kernel data is smaller than the kernel");
+    }
 
-    // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    // copy the Java array into the kernel. The array can be longer than the kernel
+    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
+    env->GetIntArrayRegion((jintArray)jarray, 0, (jint)kernel1D->data.size, kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -390,20 +467,22 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("kernel data is null");
+    }
     jint length = env->GetArrayLength((jfloatArray)jarray);
+    if( width < 0 || length < width ) {
+        throw std::invalid_argument("kernel data is smaller than the kernel");
+    }
 
-    // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    // copy the Java array into the kernel. The array can be longer than the kernel
+    std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, (jint)kernel1D->data.size, kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
@@ -411,20 +490,22 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("kernel data is null");
+    }
     jint length = env->GetArrayLength((jintArray)jarray);
+    if( width < 0 || length < (int64_t)width*width ) {
+        throw std::invalid_argument("kernel data is smaller than the kernel");
+    }
 
-    // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    // copy the Java array into the kernel. The array can be longer than the kernel
+    std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
+    env->GetIntArrayRegion((jintArray)jarray, 0, (jint)kernel2D->data.size, kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -432,18 +513,20 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("kernel data is null");
+    }
     jint length = env->GetArrayLength((jfloatArray)jarray);
+    if( width < 0 || length < (int64_t)width*width ) {
+        throw std::invalid_argument("kernel data is smaller than the kernel");
+    }
 
-    // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    // copy the Java array into the kernel. The array can be longer than the kernel
+    std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, (jint)kernel2D->data.size, kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..3d36f30 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -40,6 +40,30 @@ public:
     void resize( uint32_t desired );
 };
 
+/**
+ * Gets a Java array as a critical array and releases it when it goes out of scope, no matter how the scope is left.
+ * There can't be any other JNI call while a critical array is being held.
+ */
+class CriticalArray {
+public:
+    JNIEnv *env;
+    jarray array;
+    // mode the array is released with. JNI_ABORT if the array isn't modified and 0 if it is
+    jint mode;
+    void* data;
+
+    CriticalArray( JNIEnv *env, jobject jdata, jint mode );
+
+    ~CriticalArray();
+
+    CriticalArray( const CriticalArray& ) = delete;
+    CriticalArray& operator=( const CriticalArray& ) = delete;
+};
+
+// Turns the C++ exception which is being handled into a Java exception. Only call it from inside of a catch block.
+// C++ exceptions can't be allowed to leave a native method.
+void throwJavaException( JNIEnv *env );
+
 struct JImageInfo {
     jobject jdata;
 
@@ -85,6 +109,10 @@ jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , cons
 jmethodID safe_GetMethodID( JNIEnv *env, jclass& objClass, const char* name , const char* type);
 jdouble safe_GetDouble( JNIEnv *env, jclass& objClass, jobject& obj, const char* name );
 jint safe_GetInt( JNIEnv *env, jclass& objClass, jobject& obj, const char* name );
+jboolean safe_GetBoolean( JNIEnv *env, jclass& objClass, jobject& obj, const char* name );
+
+// Value of the field 'nativePtr'. Throws an exception if there's no native object
+jlong safe_GetNativePtr( JNIEnv *env, jclass& objClass, jobject& obj );
 
 JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage );
 JImageInfoF32 extractInfoF32( JNIEnv *env, jobject& jimage );
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..3f2d3de 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -8,10 +8,10 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -21,63 +21,60 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMean<F32>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (ThresholdBlockMean<U8> *) nativePtr;
     } else {
         delete (ThresholdBlockMean<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..a4179eb 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -9,10 +9,10 @@ extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth,
     jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -22,63 +22,60 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMinMax<F32>((float)minimumSpread,region_width,(bool)thresholdFromLocalBlocks,(float)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (ThresholdBlockMinMax<U8> *) nativePtr;
     } else {
         delete (ThresholdBlockMinMax<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..0385e15 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -9,10 +9,10 @@ extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     JNIEnv *env, jobject obj, jboolean otsu2, jobject jregionWidth, jdouble tuning,
     jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -22,62 +22,59 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockOtsu<F32>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (ThresholdBlockOtsu<U8> *) nativePtr;
     } else {
         delete (ThresholdBlockOtsu<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..1481a5c 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -12,47 +12,59 @@ extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
 
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+
     LinearContourLabelChang2004* ptr = new LinearContourLabelChang2004(ConnectRule::FOUR);
     ptr->maxContourSize = 0x7fffffff; // Java's max is a signed int
 
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, (jlong)ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     delete (LinearContourLabelChang2004*) nativePtr;
 
     env->SetLongField(obj, fid, 0);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
-
-    contour->process(input.image, label.image);
+    {
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray labelArray(env,label.info.jdata,0);
+        label.image.data = (S32*)labelArray.data;
 
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
+        contour->process(input.image, label.image);
+    }
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
+    if( jpoints == nullptr )
+        throw std::runtime_error("storagePoints is null");
     WrapJGrowQueue_I32 grow_queue(env,jpoints);
 
     jmethodID midAdd =  safe_GetMethodID(env, objClass, "addContour", "(II)V");
@@ -63,85 +75,115 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         // internal contour ids will be grabbed from storagePoints
         grow_queue.setTo(p.internalIndexes);
         env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
+        if( env->ExceptionCheck() )
+            return;
     }
 
     jfieldID field_packed = safe_GetFieldID(env, objClass, "packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;");
     jobject jpacked = env->GetObjectField(obj,field_packed);
+    if( jpacked == nullptr )
+        throw std::runtime_error("packedPoints is null");
     copy_into_java(env,contour->packedPoints,jpacked);
 
     // TODO storageContours
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
         (JNIEnv *env, jobject obj, jboolean enabled)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto * contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     contour->saveInternalContours = enabled;
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT jboolean JNICALL Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto * contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     return (jboolean)contour->saveInternalContours;
+} catch( ... ) {
+    throwJavaException(env);
+    return 0;
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMinContour
         (JNIEnv *env, jobject obj, jint size)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     contour->minContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMinContour
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     return static_cast<jint>(contour->minContourSize);
+} catch( ... ) {
+    throwJavaException(env);
+    return 0;
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMaxContour
         (JNIEnv *env, jobject obj, jint size)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     contour->maxContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     return static_cast<jint>(contour->maxContourSize);
+} catch( ... ) {
+    throwJavaException(env);
+    return 0;
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         (JNIEnv *env, jobject obj, jobject jrule )
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     jclass enumClass = env->GetObjectClass(jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
     jint rule_oridinal = env->CallIntMethod(jrule,mid);
+    if( env->ExceptionCheck() )
+        return;
 
     switch( rule_oridinal ) {
         case 0:
@@ -155,15 +197,17 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         default:
             throw "Unknown connect rule";
     }
-
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
         (JNIEnv *env, jobject obj)
 {
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env,objClass,obj);
 
     jclass enumClass = safe_FindClass(env,"boofcv/struct/ConnectRule");
 
@@ -176,14 +220,18 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
 
     if( env->ExceptionCheck() || theRule == nullptr ) {
         env->ExceptionDescribe();
-        throw "Could lookup static field";
+        throw "Couldn't lookup static field";
     }
 
     jobject ret = env->GetStaticObjectField(enumClass,theRule);
     if( env->ExceptionCheck() || ret == nullptr ) {
         env->ExceptionDescribe();
-        throw "Could lookup static field";
+        throw "Couldn't lookup static field";
     }
     return ret;
+} catch( ... ) {
+    throwJavaException(env);
+    return nullptr;
+}
 }
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..fb26d7a 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -9,10 +9,10 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     jlong ptr;
     if( isInteger ) {
@@ -20,63 +20,60 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     } else {
         ptr = (jlong)new GlobalFixedBinaryFilter<F32>((float)threshold, (bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (GlobalFixedBinaryFilter<U8> *) nativePtr;
     } else {
         delete (GlobalFixedBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..7bf9af5 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -7,73 +7,70 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new GlobalOtsuBinaryFilter<U8>((U8)minValue,(U8)maxValue, (bool) down);
     } else {
         ptr = (jlong)new GlobalOtsuBinaryFilter<F32>((F32)minValue,(F32)maxValue, (bool) down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (GlobalOtsuBinaryFilter<U8> *) nativePtr;
     } else {
         delete (GlobalOtsuBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..53edd1d 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -1,4 +1,5 @@
 #include <jni.h>
+#include <stdexcept>
 #include <image_blur.h>
 #include "JNIBoofCPP.h"
 
@@ -7,48 +8,50 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
     JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) {
+try {
+    if( radius < 0 )
+        throw std::invalid_argument("radius must not be negative");
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (U8*)storageArray.data;
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (F32*)storageArray.data;
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(
         JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     int32_t width = radius > 0 ? 2*radius+1 : -1;
 
@@ -57,30 +60,30 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (U8*)storageArray.data;
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (F32*)storageArray.data;
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..aece35b 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -2,6 +2,8 @@
 #include <convolve.h>
 #include "JNIBoofCPP.h"
 
+#include <memory>
+
 #include <time.h>
 
 #include <stdio.h>
@@ -29,10 +31,9 @@ BorderType borderJavaToCpp( int type ) {
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
 
@@ -41,7 +42,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -49,8 +50,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,49 +62,44 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
 
@@ -110,7 +108,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -118,53 +116,50 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
-
+try {
    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
 
@@ -173,7 +168,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -181,46 +176,43 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
-
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..f02342a 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -2,6 +2,8 @@
 #include <convolve.h>
 #include "JNIBoofCPP.h"
 
+#include <memory>
+
 #include <stdio.h>
 
 using namespace boofcv;
@@ -9,74 +11,69 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..6716563 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -8,10 +8,10 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -21,63 +21,60 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     } else {
         ptr = (jlong)new LocalMeanBinaryFilter<F32>(region_width,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) {
-
+try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
+    env->SetLongField(obj, fid, 0);
 
     if( isInteger ) {
         delete (LocalMeanBinaryFilter<U8> *) nativePtr;
     } else {
         delete (LocalMeanBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throwJavaException(env);
+}
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
 
-    // Get the pointer to the thresholding algorithm
-    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
-    jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
-    jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
+    try {
+        // Get the pointer to the thresholding algorithm
+        jclass objClass = env->GetObjectClass(obj);
+        jboolean isInteger = safe_GetBoolean(env,objClass,obj,"isInteger");
+        jlong nativePtr = safe_GetNativePtr(env,objClass,obj);
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (U8*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            CriticalArray outputArray(env,output.info.jdata,0);
+            input.image.data = (F32*)inputArray.data;
+            output.image.data = (U8*)outputArray.data;
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 30ab58dfff674332d32167fba9bcb10cd007fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:00 +0000
Subject: [PATCH 30/39] fix: mean blur of a very wide image overflowed the
 stack

---
 boofcpp/src/boofcv/image_blur.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 3e53c57..2f29ffb 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,7 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <vector>
 
 namespace boofcv {
     /**
@@ -94,7 +95,7 @@ namespace boofcv {
 
             sum_type divisor = kernelWidth;
             sum_type halfDivisor = divisor/2;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals( input.width );
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
@@ -137,7 +138,7 @@ namespace boofcv {
             uint32_t backStep = kernelWidth*input.stride;
 
             sum_type divisor = kernelWidth;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals( input.width );
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
-- 
2.43.0


From 57c660c050e4624cb9a01dc7fd11e636f4167a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:47 +0000
Subject: [PATCH 31/39] fix: native filters shared by Java threads mixed up the
 image types of calls

---
 .../boofcpp/convolve/NativeConvolveImage.java  | 18 ++++++++++++------
 .../boofcpp/convolve/NativeImageBlurOps.java   | 12 ++++++++----
 .../NativeImageConvolveNormalized.java         | 12 ++++++++----
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
index 5b7f753..dd5b9d4 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
@@ -20,33 +20,39 @@ public class NativeConvolveImage extends NativeBase implements
     public void convolve(Kernel2D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // this object is shared by all threads
+        NativeConvolveImage alg = new NativeConvolveImage();
+        alg.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeConvolve(kernel,input,output,borderToType(border).ordinal());
+        alg.nativeConvolve(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // this object is shared by all threads
+        NativeConvolveImage alg = new NativeConvolveImage();
+        alg.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
+        alg.nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // this object is shared by all threads
+        NativeConvolveImage alg = new NativeConvolveImage();
+        alg.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeVertical(kernel,input,output,borderToType(border).ordinal());
+        alg.nativeVertical(kernel,input,output,borderToType(border).ordinal());
     }
 
     public native void nativeConvolve( Kernel2D kernel, ImageBase input, ImageBase output, int borderType );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
index ee9da83..fdffe7d 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
@@ -22,9 +22,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // this object is shared by all threads
+        NativeImageBlurOps<T> alg = new NativeImageBlurOps<>();
+        alg.setImageType(input.imageType.getImageClass());
 
-        nativeMean(input,output,radius,storage);
+        alg.nativeMean(input,output,radius,storage);
     }
 
     public native void nativeMean( T input, T output, int radius , T storage );
@@ -37,9 +39,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // this object is shared by all threads
+        NativeImageBlurOps<T> alg = new NativeImageBlurOps<>();
+        alg.setImageType(input.imageType.getImageClass());
 
-        nativeGaussian(input,output,sigma,radius,storage);
+        alg.nativeGaussian(input,output,sigma,radius,storage);
     }
 
     public native void nativeGaussian( T input, T output, double sigma, int radius , T storage );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
index f92f934..d178d68 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
@@ -19,8 +19,10 @@ public class NativeImageConvolveNormalized extends NativeBase
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativehorizontal(kernel, input, output);
+        // this object is shared by all threads
+        NativeImageConvolveNormalized alg = new NativeImageConvolveNormalized();
+        alg.setImageType(input.imageType.getImageClass());
+        alg.nativehorizontal(kernel, input, output);
     }
     public native void nativehorizontal( Kernel1D kernel, ImageBase input, ImageBase output );
 
@@ -28,8 +30,10 @@ public class NativeImageConvolveNormalized extends NativeBase
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativevertical(kernel, input, output);
+        // this object is shared by all threads
+        NativeImageConvolveNormalized alg = new NativeImageConvolveNormalized();
+        alg.setImageType(input.imageType.getImageClass());
+        alg.nativevertical(kernel, input, output);
     }
 
     public native void nativevertical( Kernel1D kernel, ImageBase input, ImageBase output );
-- 
2.43.0


From d329a40309195d134665b2ce789da1fb81aabc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 32/39] fix: the Java bridge processed GrayS8 images as if they
 were GrayU8

---
 boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java b/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
index 8e012f8..bfed89e 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java
@@ -1,6 +1,7 @@
 package org.boofcpp;
 
 import boofcv.abst.filter.binary.InputToBinary;
+import boofcv.struct.image.ImageDataType;
 import boofcv.struct.image.ImageGray;
 import boofcv.struct.image.ImageType;
 
@@ -22,6 +23,7 @@ public abstract class NativeBase<T extends ImageGray<T>>
 
     public void setImageType( Class<T> inputType ) {
         this.imageType = ImageType.single(inputType);
+        checkSupported();
         this.isInteger = this.imageType.getDataType().isInteger();
         this.inputBits = this.imageType.getDataType().getNumBits();
         this.outputBits = this.imageType.getDataType().getNumBits();
@@ -29,9 +31,18 @@ public abstract class NativeBase<T extends ImageGray<T>>
 
     public void setImageType( Class<T> inputType , Class<T> outputType ) {
         this.imageType = ImageType.single(inputType);
+        checkSupported();
         this.outputType = ImageType.single(outputType);
         this.isInteger = this.imageType.getDataType().isInteger();
         this.inputBits = this.imageType.getDataType().getNumBits();
         this.outputBits = this.outputType.getDataType().getNumBits();
     }
+
+    /**
+     * The native code knows a type by being an integer and its number of bits. GrayS8 would be taken for GrayU8
+     */
+    private void checkSupported() {
+        if( this.imageType.getDataType() == ImageDataType.S8 )
+            throw new IllegalArgumentException("GrayS8 isn't supported");
+    }
 }
-- 
2.43.0


From 0d12afbe62a39c5dfe4b124d13cb55e71a32c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:56 +0000
Subject: [PATCH 33/39] fix: an unusable native library in one place kept the
 others from being tried

---
 boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java b/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
index 98928fa..790dbdc 100644
--- a/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
+++ b/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
@@ -71,8 +71,10 @@ public class NativeUtils {
         for( String n : getFullNames() ) {
             File f = new File(path,n);
             if( f.exists() ) {
-                System.load(f.getAbsolutePath());
-                return true;
+                try {
+                    System.load(f.getAbsolutePath());
+                    return true;
+                } catch( UnsatisfiedLinkError ignore ){} // e.g. built for another architecture
             }
         }
         return false;
@@ -90,7 +92,7 @@ public class NativeUtils {
             try {
                 _loadLibraryFromJar(path+n);
                 return true;
-            } catch( IOException ignore ){}
+            } catch( IOException | UnsatisfiedLinkError ignore ){}
         }
         return false;
     }
-- 
2.43.0


From 4f0f3ee50d7538a9577b45fba7f8fa0b163ea912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:00 +0000
Subject: [PATCH 34/39] fix: contour transfer to Java held one local reference
 per block of points

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index f8f7d93..dcbe0cd 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -130,6 +130,7 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 
     // See if the array has been resized
     if( desired > this->array_length ) {
+        env->DeleteLocalRef(array_object);
         this->array_object = (jarray) env->GetObjectField(jobj, fid_data);
         if (array_object == nullptr) {
             throw std::runtime_error("array object is null");
@@ -138,6 +139,13 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
     }
 }
 
+// Java has room for few references at a time
+struct LocalReference {
+    JNIEnv *env;
+    jobject ref;
+    ~LocalReference() { env->DeleteLocalRef(ref); }
+};
+
 void copy_into_java( JNIEnv *env,
                      const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src ,
                      jobject dst )
@@ -177,6 +185,7 @@ void copy_into_java( JNIEnv *env,
         }
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
+        LocalReference reference{env,the_array};
         CriticalArray critical(env,the_array,0);
         auto array_dst = (jint *)critical.data;
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
-- 
2.43.0


From 5b0aa51f3f0e8c1289cfc0f7a6f446b66a749d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 35/39] fix: images and arrays were left with released memory
 when growing them ran out of memory

The array was released before the larger one was requested. When that failed
the object still pointed at the released memory, which its destructor released
again.
---
 boofcpp/src/boofcv/base_types.h  |  4 +++-
 boofcpp/src/boofcv/image_types.h | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 46fb073..8173ac6 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -129,8 +129,10 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                // the old array is released last so that the array is still valid if there isn't enough memory
+                auto *tmp = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = tmp;
                 this->array_length = new_size;
                 memset(data,default_value,new_size);
             }
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 0258405..266f793 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -168,8 +168,10 @@ namespace boofcv {
 
             uint32_t desired_length = width*height;
             if( desired_length > this->data_length ) {
+                // the old array is released last so that the image is still valid if there isn't enough memory
+                T* tmp = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = tmp;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -433,8 +435,10 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                // the old array is released last so that the image is still valid if there isn't enough memory
+                T* tmp = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = tmp;
                 this->data_length = new_length;
             }
 
@@ -453,8 +457,10 @@ namespace boofcv {
 
             uint32_t desired_length = width*height*this->num_bands;
             if( desired_length > this->data_length ) {
+                // the old array is released last so that the image is still valid if there isn't enough memory
+                T* tmp = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = tmp;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -484,8 +490,10 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                // the old array is released last so that the image is still valid if there isn't enough memory
+                T* tmp = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = tmp;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From 12092d28e8e141ca6c731fcb342b8a0773fe8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 36/39] fix: planar images leaked bands and mixed band shapes
 when they ran out of memory

---
 boofcpp/src/boofcv/image_types.h | 44 +++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 266f793..505c85e 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -263,8 +263,16 @@ namespace boofcv {
 
             this->num_bands = num_bands;
             bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
+            uint32_t declared = 0;
+            try {
+                for( ; declared < this->num_bands; declared++ ) {
+                    bands[declared] = new T(width,height);
+                }
+            } catch( ... ) {
+                // the destructor isn't called when a constructor throws
+                releaseBands(bands,0,declared);
+                delete []bands;
+                throw;
             }
         }
 
@@ -291,8 +299,17 @@ namespace boofcv {
             if( this->subimage ) {
                 throw invalid_argument("Can't reshape a subimage");
             }
-            for( uint32_t i = 0; i < num_bands; i++ ) {
-                bands[i]->reshape(width,height);
+            uint32_t reshaped = 0;
+            try {
+                for( ; reshaped < num_bands; reshaped++ ) {
+                    bands[reshaped]->reshape(width,height);
+                }
+            } catch( ... ) {
+                // all bands must have the same shape. Going back to the previous one doesn't require any memory
+                while( reshaped > 0 ) {
+                    bands[--reshaped]->reshape(this->width,this->height);
+                }
+                throw;
             }
             this->width = width;
             this->height = height;
@@ -306,8 +323,15 @@ namespace boofcv {
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                uint32_t declared = this->num_bands;
+                try {
+                    for( ; declared < desired; declared++ ) {
+                        new_bands[declared] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    releaseBands(new_bands,this->num_bands,declared);
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
@@ -357,6 +381,14 @@ namespace boofcv {
                 throw invalid_argument("Requested an out of bounds band");
             return *(this->bands[which]);
         }
+
+    private:
+        // deletes bands begin to end-1
+        static void releaseBands( T** bands , uint32_t begin , uint32_t end ) {
+            for( uint32_t i = begin; i < end; i++ ) {
+                delete bands[i];
+            }
+        }
     };
 
     /**
-- 
2.43.0


From 4f334abdce5fcaa040bb64a8fa6841f360937fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 37/39] fix: a kernel had the new width without its weights
 when it ran out of memory

---
 boofcpp/src/boofcv/convolve_kernels.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index d1aa826..ff1608e 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -124,9 +124,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width);
         }
 
         E& at( uint32_t index ) const {
@@ -144,9 +144,9 @@ namespace boofcv {
         Kernel1D<E>& operator=(const Kernel1D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
@@ -184,9 +184,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width*width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width*width);
         }
 
         uint32_t dimension() const override  {
@@ -202,9 +202,9 @@ namespace boofcv {
         Kernel2D<E>& operator=(const Kernel2D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
-- 
2.43.0


From d7a610abeb9267a3f68eabaa9bba6565f60b4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 38/39] fix: packed sets and contour tracers leaked memory when
 they ran out of it

---
 boofcpp/src/boofcv/contour.cpp   | 13 ++++++++++---
 boofcpp/src/boofcv/packed_sets.h | 16 +++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..d0426ef 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -10,7 +10,7 @@ using namespace boofcv;
  * @param rule Specifies 4 or 8 as connectivity rule
  */
 ContourTracer::ContourTracer(ConnectRule rule) :
-        storagePoints(nullptr), binary(nullptr), labeled(nullptr) {
+        storagePoints(nullptr), binary(nullptr), labeled(nullptr), offsetsBinary(nullptr) {
     this->rule = rule;
 
     if (ConnectRule::EIGHT == rule) {
@@ -29,8 +29,15 @@ ContourTracer::ContourTracer(ConnectRule rule) :
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
 
-    offsetsBinary = new int32_t[ruleN];
-    offsetsLabeled = new int32_t[ruleN];
+    try {
+        offsetsBinary = new int32_t[ruleN];
+        offsetsLabeled = new int32_t[ruleN];
+    } catch (...) {
+        // the destructor isn't called when a constructor throws
+        delete[]offsetsBinary;
+        delete[]nextDirection;
+        throw;
+    }
 }
 
 ContourTracer::~ContourTracer() {
diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..5a4c239 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -52,8 +52,18 @@ namespace boofcv {
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
             blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
+            uint32_t declared = 0;
+            try {
+                for( ; declared < _number_of_blocks; declared++ ) {
+                    blocks[declared] = new T[_size_of_block];
+                }
+            } catch( ... ) {
+                // the destructor isn't called when a constructor throws
+                while( declared > 0 ) {
+                    delete []blocks[--declared];
+                }
+                delete []blocks;
+                throw;
             }
         }
 
@@ -122,9 +132,9 @@ namespace boofcv {
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
                 delete []blocks;
                 this->blocks = tmp;
+                this->blocks[_number_of_blocks] = new T[_size_of_block];
                 this->_number_of_blocks++;
             }
             this->blocks[block][_total_element%_size_of_block] = element;
-- 
2.43.0


From d238e947414dc228fb13ff4f72f044cb1570b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:33 +0000
Subject: [PATCH 39/39] fix: shapes with more than 2^32-1 values wrapped around
 and gave images without memory for their pixels

---
 boofcpp/src/boofcv/convolve_kernels.h | 12 ++++++++++--
 boofcpp/src/boofcv/image_types.h      | 27 ++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index ff1608e..4e68ab2 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -159,7 +159,7 @@ namespace boofcv {
     class Kernel2D : public KernelBase<E> {
     public:
         Kernel2D( uint32_t width , uint32_t offset) : KernelBase<E>(width,offset) {
-            this->data.resize(width*width);
+            this->data.resize(this->area_of(width));
         }
 
         Kernel2D( uint32_t width ) : Kernel2D(width,width/2) {
@@ -184,7 +184,7 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
-            this->data.resize(width*width);
+            this->data.resize(this->area_of(width));
             this->width = width;
             this->offset = offset;
         }
@@ -208,6 +208,14 @@ namespace boofcv {
             }
             return *this;
         }
+
+    private:
+        // number of elements in a kernel of this width
+        static uint32_t area_of( uint32_t width ) {
+            if( width > 65535 )
+                throw std::invalid_argument("Kernel is too large");
+            return width*width;
+        }
     };
 
     /**
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 505c85e..3f3d2b4 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstring>
 #include <exception>
+#include <limits>
 #include <stdexcept>
 #include <utility>
 #include <vector>
@@ -62,6 +63,18 @@ namespace boofcv {
         bool isInBounds( uint32_t x , uint32_t y ) const {
             return x < this->width && y < this->height;
         }
+
+    protected:
+        /**
+         * Length of the data array for an image of the specified shape. Lengths and indexes are 32-bit integers.
+         */
+        static uint32_t length_of( uint32_t width , uint32_t height , uint32_t num_bands ) {
+            const uint64_t max = std::numeric_limits<uint32_t>::max();
+            const uint64_t pixels = static_cast<uint64_t>(width)*height;
+            if( pixels > max || pixels*num_bands > max )
+                throw invalid_argument("Image is too large");
+            return static_cast<uint32_t>(pixels*num_bands);
+        }
     };
 
     template<class _PT>
@@ -89,8 +102,8 @@ namespace boofcv {
         Gray( uint32_t width , uint32_t height ) {
             this->width = width;
             this->height = height;
-            this->data = new T[width*height]();
-            this->data_length = width*height;
+            this->data_length = this->length_of(width,height,1);
+            this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width;
             this->subimage = false;
@@ -166,7 +179,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height;
+            uint32_t desired_length = this->length_of(width,height,1);
             if( desired_length > this->data_length ) {
                 // the old array is released last so that the image is still valid if there isn't enough memory
                 T* tmp = new T[desired_length]();
@@ -411,7 +424,7 @@ namespace boofcv {
             this->width = width;
             this->height = height;
             this->num_bands = num_bands;
-            this->data_length = width*height*num_bands;
+            this->data_length = this->length_of(width,height,num_bands);
             this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width*num_bands;
@@ -462,7 +475,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = width*height*bands;
+            uint32_t new_length = this->length_of(width,height,bands);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
@@ -487,7 +500,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height*this->num_bands;
+            uint32_t desired_length = this->length_of(width,height,this->num_bands);
             if( desired_length > this->data_length ) {
                 // the old array is released last so that the image is still valid if there isn't enough memory
                 T* tmp = new T[desired_length]();
@@ -517,7 +530,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = this->width*this->height*desired;
+            uint32_t new_length = this->length_of(this->width,this->height,desired);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
-- 
2.43.0

