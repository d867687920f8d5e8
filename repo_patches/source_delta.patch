From 1363759e26c49aa9c0b5aa2e5126eb27443e1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/27] fix: transpose shared its index buffers between OpenMP
 threads

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..82f4c68 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -215,12 +215,14 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            // Index buffers belong to one iteration: threads must not share them
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From a84aa01968586ee12d1b4a9481aab8bdea6f9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 02/27] fix: createRandom drew from the shared engine in
 parallel, so a seed did not determine the tensor

---
 smart_dnn/Tensor/TensorOperations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..6b84798 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -301,8 +301,8 @@ public:
 
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
-        
-        #pragma omp parallel for
+
+        // Drawn in order from the one shared engine, so that a seed gives one result
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From b3e8a7474290fc85c109bf3dbdc5d0e640aa9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 03/27] fix: concurrent draws raced on the shared random engine

---
 smart_dnn/RandomEngine.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/smart_dnn/RandomEngine.hpp b/smart_dnn/RandomEngine.hpp
index aa193c2..12a3779 100644
--- a/smart_dnn/RandomEngine.hpp
+++ b/smart_dnn/RandomEngine.hpp
@@ -1,6 +1,9 @@
 #ifndef RANDOMENGINE_HPP
 #define RANDOMENGINE_HPP
 
+#include <algorithm>
+#include <cmath>
+#include <mutex>
 #include <random>
 
 class RandomEngine {
@@ -11,30 +14,36 @@ public:
     }
 
     static void setSeed(unsigned int seed) {
+        std::lock_guard<std::mutex> lock(engineMutex());
         getInstance().seed(seed);
     }
 
     static float getRandRange(float min, float max) {
+        std::lock_guard<std::mutex> lock(engineMutex());
         std::uniform_real_distribution<float> dist(min, max);
         return dist(getInstance());
     }
 
     static float getRand() {
+        std::lock_guard<std::mutex> lock(engineMutex());
         std::uniform_real_distribution<float> dist(0.0f, 1.0f);
         return dist(getInstance());
     }
 
     static float getXavierInit(float n_in) {
+        std::lock_guard<std::mutex> lock(engineMutex());
         std::normal_distribution<float> dist(0.0f, std::sqrt(1.0f / n_in));
         return dist(getInstance());
     }
 
     static float getHeInit(float n_in) {
+        std::lock_guard<std::mutex> lock(engineMutex());
         std::normal_distribution<float> dist(0.0f, std::sqrt(2.0f / n_in));
         return dist(getInstance());
     }
 
     static float getHeRandRange(float n_in, float min, float max) {
+        std::lock_guard<std::mutex> lock(engineMutex());
         std::normal_distribution<float> he_dist(0.0f, std::sqrt(2.0f / n_in));
         float he_value = he_dist(getInstance());
 
@@ -42,6 +51,12 @@ public:
     }
 
 private:
+    // One lock for every draw: an engine step is not atomic
+    static std::mutex& engineMutex() {
+        static std::mutex mutex;
+        return mutex;
+    }
+
     RandomEngine() = delete;
     ~RandomEngine() = delete;
     RandomEngine(const RandomEngine&) = delete;
-- 
2.43.0


From bcbfa9b95c31ac2727a5e68b0b592ef4cbaa0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 04/27] fix: MNISTLoader invented samples from truncated,
 unreadable or mismatched files

---
 smart_dnn/Datasets/MNistLoader.hpp | 58 ++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..3a1624e 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -19,6 +19,9 @@ public:
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
         std::vector<TensorType> images = loadImages();
         std::vector<TensorType> labels = loadLabels();
+        if (countSamples(images) != countSamples(labels)) {
+            throw std::runtime_error("MNIST image and label files hold different numbers of samples!");
+        }
         return {images, labels};
     }
 
@@ -66,13 +69,15 @@ private:
         int numRows = readInt(file);
         int numCols = readInt(file);
 
-        if (numSamples != -1) {
-            numImages = numSamples;
-        }
-
         if (magicNumber != 2051) {
             throw std::runtime_error("Invalid magic number in MNIST image file!");
         }
+
+        if (numImages < 0 || numRows <= 0 || numCols <= 0) {
+            throw std::runtime_error("Invalid dimensions in MNIST image file!");
+        }
+
+        numImages = selectCount(numImages);
         
         std::vector<TensorType> images;
         for (int i = 0; i < numImages; i += batchSize) {
@@ -82,7 +87,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -104,21 +109,23 @@ private:
         int magicNumber = readInt(file);
         int numLabels = readInt(file);
 
-        if (numSamples != -1) {
-            numLabels = numSamples;
-        }
-
         if (magicNumber != 2049) {
             throw std::runtime_error("Invalid magic number in MNIST label file!");
         }
 
+        if (numLabels < 0) {
+            throw std::runtime_error("Invalid number of labels in MNIST label file!");
+        }
+
+        numLabels = selectCount(numLabels);
+
         std::vector<TensorType> labels;
         for (int i = 0; i < numLabels; i += batchSize) {
             int currentBatchSize = std::min(batchSize, numLabels - i); // Handle last batch size
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -127,9 +134,38 @@ private:
         return labels;
     }
 
+    // Number of samples to read from a file that announces `available` of them
+    int selectCount(int available) const {
+        if (numSamples == -1) {
+            return available;
+        }
+        if (numSamples > available) {
+            throw std::runtime_error("MNIST file holds only " + std::to_string(available) + " samples, requested: " + std::to_string(numSamples));
+        }
+        return numSamples;
+    }
+
+    static size_t countSamples(const std::vector<TensorType>& batches) {
+        size_t count = 0;
+        for (const TensorType& batch : batches) {
+            count += batch.getShape()[0];
+        }
+        return count;
+    }
+
+    unsigned char readByte(std::ifstream& file) {
+        char byte;
+        if (!file.get(byte)) {
+            throw std::runtime_error("Unexpected end of MNIST file or read error!");
+        }
+        return static_cast<unsigned char>(byte);
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
-        file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
+            throw std::runtime_error("Unexpected end of MNIST file or read error!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From e2cc08ad0f97fe8661349730d1c63a91243ed4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 05/27] fix: a failed tensor assignment left the new shape over
 the old storage

---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..bb52bbf 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -58,9 +58,9 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU& TENSOR_DATA_CPU::operator=(const TENSOR_DATA_CPU& other) {
     if (this != &other) {
-        shape_ = other.shape_;
-        data_.reset(new T[shape_.size()]);
-        std::copy_n(other.data_.get(), shape_.size(), data_.get());
+        // Build the copy first: a failed allocation must leave this tensor as it was
+        TensorData copy(other);
+        *this = std::move(copy);
     }
     return *this;
 }
-- 
2.43.0


From be20f7553d6e05da1347758179ae8a70890396e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 06/27] fix: constructors that allocate were noexcept, so
 running out of memory ended the process

---
 smart_dnn/Shape/Shape.hpp               | 2 +-
 smart_dnn/Tensor/Tensor.hpp             | 8 ++++----
 smart_dnn/Tensor/Tensor.impl.hpp        | 8 ++++----
 smart_dnn/Tensor/TensorData.hpp         | 6 +++---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..9384500 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -9,7 +9,7 @@
 struct Shape {
     ~Shape() = default;
 
-    Shape(const Shape& other) noexcept
+    Shape(const Shape& other)
         : _dimensions(other._dimensions), _size(other._size), _stride(other._stride) {}
 
     Shape(Shape&& other) noexcept
diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4107c70 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -13,16 +13,16 @@ namespace smart_dnn {
 template <typename T=float, typename DeviceType=CPUDevice>
 class Tensor {
 public:
-    Tensor(Shape dimensions) noexcept;
-    Tensor(Shape dimensions, T value) noexcept;
-    Tensor(const TensorData<T, DeviceType>& data) noexcept;
+    Tensor(Shape dimensions);
+    Tensor(Shape dimensions, T value);
+    Tensor(const TensorData<T, DeviceType>& data);
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..bae4681 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -6,16 +6,16 @@ namespace smart_dnn {
 #define TEMPLATE_TENSOR template <typename T, typename DeviceType>
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions) noexcept : data_(dimensions) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions) : data_(dimensions) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) noexcept : data_(dimensions, value) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) : data_(dimensions, value) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const T* dataArray) : data_(dimensions, dataArray) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) noexcept : data_(data) {}
+Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) : data_(data) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(TensorData<T, DeviceType>&& data) noexcept : data_(std::move(data)) {}
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..ca8ef1f 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -17,14 +17,14 @@ class TensorData;
 template <typename T>
 class TensorData<T, CPUDevice> {
 public:
-    explicit TensorData(Shape dimensions) noexcept;
-    TensorData(Shape dimensions, T value) noexcept;
+    explicit TensorData(Shape dimensions);
+    TensorData(Shape dimensions, T value);
     TensorData(Shape dimensions, const T* data);
     TensorData(Shape dimensions, T* data) noexcept; // used for slicing.
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index bb52bbf..257e000 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -8,13 +8,13 @@ namespace smart_dnn {
 #define TENSOR_DATA_CPU TensorData<T, CPUDevice>
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions) 
     : shape_(std::move(dimensions)), data_(std::make_unique<T[]>(shape_.size())) {
         std::fill(data_.get(), data_.get() + shape_.size(), T{});
     }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) 
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::fill_n(data_.get(), shape_.size(), value);
 }
@@ -49,7 +49,7 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values){
     shape_ = dimensions;
     data_ = std::make_unique<T[]>(shape_.size());
     std::move(values.begin(), values.end(), data_.get());
-- 
2.43.0


From ac6ca7ff8961e479ff1a2f6d8b042259da548f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/27] fix: FlattenLayer::backward used the shape of an older
 call, or none, after a 2D forward

---
 smart_dnn/Layers/FlattenLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..d9dffda 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
@@ -48,6 +49,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 25da62f3aeb5a5545c883e3d01b4e4f11eac6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 08/27] fix: ActivationLayer::backward before forward read an
 empty input

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..7cb3750 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("ActivationLayer: forward must be called before backward");
+        }
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From 88dd4da7ebd18d0c64be24e35316cbf1b350be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 09/27] fix: DropoutLayer dropped far more than its rate, did
 not scale the gradient and read an empty mask

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..24a147b 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -3,6 +3,8 @@
 
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Layer.hpp"
+#include "smart_dnn/RandomEngine.hpp"
+#include <optional>
 
 namespace smart_dnn {
 
@@ -14,22 +16,25 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            // Each element is dropped with probability dropoutRate
+            TensorType newMask(input.getShape());
+            newMask.apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });
+            mask = std::move(newMask);
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
+            mask.reset(); // A later backward must not use the mask of an older call
             return input; // No dropout during inference
         }
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+        if (!this->trainingMode) {
+            return gradOutput;
         }
-        if (this->trainingMode) {
-            return gradOutput * (*mask);
+        if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
-        return gradOutput;
+        return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
     }
 
 private:
-- 
2.43.0


From bd9bfa7bbe6251ef78f74c277424897158578b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 10/27] fix: BatchNormalizationLayer::backward read past the
 shape of a rank 1 reduction

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..9a55707 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -123,7 +123,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = numFeatures;  // Preserve the channel dimension (the tensor may be rank 1)
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From b6bd2f21f688df86e23f0c2326fac484fd3d9ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 11/27] fix: a failed BatchNormalizationLayer forward could
 update only one of the running statistics

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 9a55707..a6f5246 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -40,8 +40,11 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            // Compute both before storing either: a failed batch must not count in one of them only
+            TensorType newMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
+            TensorType newVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = std::move(newMean);
+            runningVariance = std::move(newVariance);
 
             return output;
         } else {
-- 
2.43.0


From 361e54be72489d37d00040e91672fc5ea9522a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 12/27] fix: Tensor -= scalar and *= scalar named functions
 that do not exist

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index bae4681..2309a31 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 31b816ef122b63f208d777d9cfd7141d3fd3d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 13/27] fix: FullyConnectedLayer::backward returned a 2D
 gradient for a 1D input

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..cf4be9d 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,9 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        if (input->getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, {gradInput.getShape()[1]}); // The shape of the input
+        }
         return gradInput;
     }
 
-- 
2.43.0


From ee4eec30a7ee91d4818476c9db6acf06f517538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 14/27] fix: moving out of a tensor by assignment left it with
 a size but no storage

---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4107c70..8336f23 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 2309a31..2d564fc 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,12 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    std::swap(data_, other.data_); // We should not have an empty tensor
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From ecff803fb0a70c98be14b10fd0e1648490f9bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 15/27] fix: train read past the targets or through a null loss
 instead of refusing

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..3a044d7 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -28,6 +28,13 @@ Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("The model must be compiled before training!");
+    }
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("Inputs and targets size mismatch!");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From a5bd83ee9b28fd1416d23c13c282e9f88f4e6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 16/27] fix: a failed Shape assignment or reshape left
 dimensions and strides that disagree

---
 smart_dnn/Shape/Shape.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index 9384500..fecc7d5 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -50,9 +50,7 @@ struct Shape {
 
     Shape& operator=(const Shape& other) {
         if (this != &other) {
-            _dimensions = other._dimensions;
-            _size = other._size;
-            _stride = other._stride;  
+            *this = Shape(other); // Copy before changing anything: an allocation may fail
         }
         return *this;
     }
@@ -86,8 +84,7 @@ struct Shape {
                 + ". New dimensions: " + Shape(dims).toString());
         }
 
-        _dimensions = dims;
-        _stride = calculateStride();
+        *this = Shape(dims);
     }
 
     [[nodiscard]] const std::vector<int>& getDimensions() const { return _dimensions; }
-- 
2.43.0


From 2e537002a542dcbd250a6b3199c9bc283ca4b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 17/27] fix: SGD and RMSProp state was keyed by storage address
 and shared between optimizer copies

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 48 ++++++++++-------------
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 22 +++++------
 2 files changed, 31 insertions(+), 39 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..680aadf 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -51,36 +51,15 @@ private:
         T* weightMutableData = weight.getData().data();
         
         size_t size = weight.getShape().size();
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-        }
-        auto& sqGrads = *squaredGrads[weightsPtr];
-        T* sqGradsData = sqGrads.getData().data();
+        T* sqGradsData = stateOf(squaredGrads, weight);
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
-        T* meanGradsData = nullptr;
-        if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
-        }
+        T* meanGradsData = centered ? stateOf(meanGrads, weight) : nullptr;
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
-        T* velocityData = nullptr;
-        if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
-        }
+        T* velocityData = momentum > T(0) ? stateOf(velocityBuffers, weight) : nullptr;
         
         for (size_t j = 0; j < size; ++j) {
             T grad = gradData[j];
@@ -127,10 +106,23 @@ private:
     bool centered;
     T weightDecay;
     
-    // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    // Store state buffers for each parameter tensor. Keyed by the tensor, not by its
+    // storage: storage moves when a tensor is assigned and is reused by other tensors.
+    using StateMap = std::unordered_map<const Tensor<T>*, Tensor<T>>;
+    StateMap squaredGrads;
+    StateMap meanGrads;       // For centered RMSProp
+    StateMap velocityBuffers; // For momentum
+
+    // A buffer of another shape belonged to a tensor that is gone
+    static T* stateOf(StateMap& buffers, const Tensor<T>& weight) {
+        auto buffer = buffers.find(&weight);
+        if (buffer == buffers.end()) {
+            buffer = buffers.emplace(&weight, Tensor<T>(weight.getShape(), T(0))).first;
+        } else if (buffer->second.getShape() != weight.getShape()) {
+            buffer->second = Tensor<T>(weight.getShape(), T(0));
+        }
+        return buffer->second.getData().data();
+    }
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..cfbf139 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -50,17 +50,16 @@ private:
         
         size_t size = weight.getShape().size();
         
-        // Get or create momentum buffer for this tensor
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
-        
-        // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        // Get or create momentum buffer for this tensor. A buffer of another shape
+        // belonged to a tensor that is gone.
+        auto buffer = momentumBuffers.find(&weight);
+        if (buffer == momentumBuffers.end()) {
+            buffer = momentumBuffers.emplace(&weight, Tensor<T>(weight.getShape(), T(0))).first;
+        } else if (buffer->second.getShape() != weight.getShape()) {
+            buffer->second = Tensor<T>(weight.getShape(), T(0));
         }
         
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
-        
-        T* momentumData = momentumBuffer.getData().data();
+        T* momentumData = buffer->second.getData().data();
         
         for (size_t j = 0; j < size; ++j) {
             T grad = gradData[j];
@@ -94,8 +93,9 @@ private:
     T weightDecay;
     bool nesterov;
     
-    // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    // Store momentum buffers for each parameter tensor. Keyed by the tensor, not by its
+    // storage: storage moves when a tensor is assigned and is reused by other tensors.
+    std::unordered_map<const Tensor<T>*, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0


From 5574dd4c43afc84df8eb881b3d6688b00fefde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 18/27] fix: Adam counted steps per optimizer call, corrected
 bias twice and used moments of another tensor's shape

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 67 ++++++++++++++------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..4fb4de2 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -25,14 +25,12 @@ class AdamOptimizer : public Optimizer<T> {
 public:
     AdamOptimizer(const AdamOptions<T>& options = {})
         : initialLearningRate(options.learningRate),
-          learningRate(options.learningRate),
           beta1(options.beta1),
           beta2(options.beta2),
           epsilon(options.epsilon),
           l1Strength(options.l1Strength),
           l2Strength(options.l2Strength),
           decay(options.decay),
-          iterations(0),
           batchSize(options.batchSize) {}
 
     void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& weights,
@@ -42,64 +40,71 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
-            updateTensor(weights[i].get(), gradients[i].get());
+            updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
         }
     }
 
 private:
+    // State of one parameter tensor
+    struct Moments {
+        Tensor<T> m; // First moment estimate
+        Tensor<T> v; // Second moment estimate
+        int iterations; // Updates applied to this tensor
+    };
+
     T initialLearningRate;
-    T learningRate;
     T beta1;
     T beta2;
     T epsilon;
     T l1Strength;
     T l2Strength;
     T decay;
-    int iterations;
     int batchSize;
-    std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
-    std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<const Tensor<T>*, Moments> moments;
 
-    void updateLearningRate(T learningRateOverride) {
-        iterations++;
+    T currentLearningRate(T learningRateOverride, int iterations) const {
         if (learningRateOverride <= T(0)) {
-            learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
-        } else {
-            learningRate = learningRateOverride;
+            return initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         }
+        return learningRateOverride;
     }
 
-    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
-        size_t key = reinterpret_cast<size_t>(&weight);
-        initializeMomentEstimates(key, weight.getShape());
+    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T learningRateOverride) {
+        Moments& state = momentEstimates(weight);
+        int iterations = ++state.iterations;
+        T learningRate = currentLearningRate(learningRateOverride, iterations);
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
+        T correction1 = T(1) - T(std::pow(beta1, iterations));
+        T correction2 = T(1) - T(std::pow(beta2, iterations));
 
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
-        T* mData = m.at(key).getData().data();
-        T* vData = v.at(key).getData().data();
+        T* mData = state.m.getData().data();
+        T* vData = state.v.getData().data();
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], learningRate, correction1, correction2);
         }
     }
 
-    void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+    // Estimates of another shape belonged to a tensor that is gone
+    Moments& momentEstimates(const Tensor<T>& weight) {
+        auto found = moments.find(&weight);
+        if (found != moments.end() && found->second.m.getShape() == weight.getShape()) {
+            return found->second;
+        }
+        Moments fresh{Tensor<T>(weight.getShape(), T(0)), Tensor<T>(weight.getShape(), T(0)), 0};
+        if (found == moments.end()) {
+            return moments.emplace(&weight, std::move(fresh)).first->second;
         }
+        found->second = std::move(fresh);
+        return found->second;
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T learningRate, T correction1, T correction2) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -110,9 +115,9 @@ private:
         vValue = beta2 * vValue + (T(1) - beta2) * averagedGradient * averagedGradient;
 
         // Compute update
-        T mHat = mValue / (T(1) - std::pow(beta1, iterations));
-        T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T mHat = mValue / correction1;
+        T vHat = vValue / correction2;
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From 827994be874f294426bc91780913f609e4953bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 19/27] fix: 4D batches spread the running statistics of
 BatchNormalizationLayer over a wrong shape, so inference threw

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index a6f5246..21286eb 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -41,8 +41,11 @@ public:
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
             // Compute both before storing either: a failed batch must not count in one of them only
-            TensorType newMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            TensorType newVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            // Batch statistics have the rank of the input, running ones are (1, numFeatures)
+            TensorType newMean = (momentum * runningMean) +
+                                 ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()));
+            TensorType newVariance = (momentum * runningVariance) +
+                                     ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchVariance, runningVariance.getShape()));
             runningMean = std::move(newMean);
             runningVariance = std::move(newVariance);
 
-- 
2.43.0


From c59aa32f2ac2b6798a90fa9674e2425f0ebeba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 20/27] fix: Tanh overflowed to NaN for inputs above 44

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From 7f05f14ceb05f5062f6620e33ed211bf61d83fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 21/27] fix: tensors could not be built from vectors (the
 constructors did not compile)

---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 257e000..d8f7e8f 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -42,16 +42,14 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From 8ed25433d71b3ac6c4577845eeb2915fa4def87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 22/27] fix: moving a tensor ended the process when memory ran
 out

---
 smart_dnn/Shape/Shape.hpp        | 5 +++--
 smart_dnn/Tensor/Tensor.impl.hpp | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index fecc7d5..493e660 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -5,6 +5,7 @@
 #include <numeric>
 #include <vector>
 #include <sstream>
+#include <utility>
 
 struct Shape {
     ~Shape() = default;
@@ -13,7 +14,7 @@ struct Shape {
         : _dimensions(other._dimensions), _size(other._size), _stride(other._stride) {}
 
     Shape(Shape&& other) noexcept
-        : _dimensions(std::move(other._dimensions)), _size(other._size), _stride(std::move(other._stride)) {}
+        : _dimensions(std::move(other._dimensions)), _size(std::exchange(other._size, 0)), _stride(std::move(other._stride)) {}
 
     explicit Shape(std::vector<int> dims) : _dimensions(std::move(dims)) {
         validateDimensions();
@@ -58,7 +59,7 @@ struct Shape {
     Shape& operator=(Shape&& other) noexcept {
         if (this != &other) {
             _dimensions = std::move(other._dimensions);
-            _size = other._size;
+            _size = std::exchange(other._size, 0);
             _stride = std::move(other._stride);  
         }
         return *this;
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 2d564fc..2c4927c 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -25,7 +25,11 @@ Tensor<T, DeviceType>::Tensor(const Tensor<T, DeviceType>& other) : data_(other.
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Tensor<T, DeviceType>&& other) noexcept : data_(std::move(other.data_)) {
-    other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    try {
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    } catch (const std::bad_alloc&) {
+        // Unless there is no memory for another one: a move must not end the process
+    }
 }
 
 TEMPLATE_TENSOR
-- 
2.43.0


From 8d99afe0fffa4e9c956e3f42bae72498b2c1ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 23/27] fix: a batch size near the largest int overflowed and
 gave an empty data set

---
 smart_dnn/Datasets/SampleGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..e7e5243 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -39,7 +39,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::uniform_real_distribution<> input_dist(0, 100.0);
     std::normal_distribution<> noise_dist(0, noise);
 
-    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
+    int num_batches = num_samples / batch_size + (num_samples % batch_size != 0);  // Ceiling division that cannot overflow
 
     for (int batch = 0; batch < num_batches; ++batch) {
         int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
-- 
2.43.0


From 2093e94b4a0f1f2036a08dd85489b1f4c9946cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:01 +0000
Subject: [PATCH 24/27] fix: optimizers read beyond a gradient smaller than its
 weights

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 5 +++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 5 +++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 4fb4de2..deceeab 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -39,6 +39,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient does not fit its weights!");
+            }
+        }
 
         for (size_t i = 0; i < weights.size(); ++i) {
             updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 680aadf..1a74c49 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -36,6 +36,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient does not fit its weights!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index cfbf139..bda065f 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -34,6 +34,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient does not fit its weights!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 2e4d383c6acb14f1955bd0e3feab4ed8a40df329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 25/27] fix: Softmax backward read beyond a gradient smaller
 than its input

---
 smart_dnn/Activations/Softmax.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..95703c7 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -60,6 +60,9 @@ public:
         if (input.getShape().rank() < 2 || gradOutput.getShape().rank() < 2) {
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
+        if (input.getShape().size() != gradOutput.getShape().size()) {
+            throw std::invalid_argument("Input and gradOutput must have the same size");
+        }
         
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
-- 
2.43.0


From 3378f5473672b72f8baa3bea380b22b1904b1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 26/27] fix: centered RMSProp took the root of a negative
 variance

The variance is the difference of two rounded averages. With a steady gradient it
comes out slightly below zero once the averages have converged, and the weight
became NaN.
---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 1a74c49..6e09f92 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -1,6 +1,7 @@
 #ifndef RMSPROP_OPTIMIZER_HPP
 #define RMSPROP_OPTIMIZER_HPP
 
+#include <algorithm>
 #include <unordered_map>
 #include <cmath>
 #include <memory>
@@ -82,8 +83,9 @@ private:
                 // Update mean gradients: mean_avg = alpha * mean_avg + (1 - alpha) * grad
                 meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                 
-                // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
-                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
+                // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon).
+                // The difference of the rounded averages may come out below zero.
+                T variance = std::max(sqGradsData[j] - meanGradsData[j] * meanGradsData[j], T(0));
                 denom = std::sqrt(variance + epsilon);
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
-- 
2.43.0


From 018bc8a314c447b2698be406d8592a85dbe5e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:25 +0000
Subject: [PATCH 27/27] fix: transpose ended the process when memory ran out
 inside its OpenMP team

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 82f4c68..465f02b 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -216,30 +216,22 @@ class AdvancedTensorOperations<T, CPUDevice> {
 
         // Iterate through all elements and place them in their new positions
         size_t totalSize = shape.size();
+        const std::vector<size_t>& oldStrides = shape.getStride();
+        const std::vector<size_t>& newStrides = newShape.getStride();
 
+        // Nothing in here may throw (or allocate): an exception cannot leave a team
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
-            // Index buffers belong to one iteration: threads must not share them
-            std::vector<int> oldIndices(rank, 0);
-            std::vector<int> newIndices(rank, 0);
-
-            // Calculate old indices
-            size_t temp = i;
-            for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-                if (shape[d] == 0) {
-                    throw std::runtime_error("Invalid shape: dimension size is zero");
-                }
-                oldIndices[d] = static_cast<int>(temp % static_cast<size_t>(shape[d]));
-                temp /= static_cast<size_t>(shape[d]);
-            }
-
-            // Map to new indices
+            // Split the position into old indices, each counts with its new stride
+            size_t rest = i;
+            size_t newPosition = 0;
             for (size_t d = 0; d < rank; ++d) {
-                newIndices[d] = oldIndices[oldToNew[d]];
+                newPosition += rest / oldStrides[d] * newStrides[oldToNew[d]];
+                rest %= oldStrides[d];
             }
 
             // Set the value in the new tensor
-            result.at(newIndices) = tensor.at(oldIndices);
+            result[newPosition] = tensor[i];
         }
 
         return result;
-- 
2.43.0

