From 984ab24430ce299d5379c9097a50f2f3370000a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 01/48] fix: SceneDecoder: do not lose scene updates when
 several messages arrive

The write buffer reference was obtained once per period, so that every message
after the first was decoded into the already published buffer and then swapped
out again. Moreover the incremental updates were applied alternatingly to two
diverging buffers. Fetch the buffer for each message and carry the value over
when publishing.
---
 src/librcl/scene_decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/librcl/scene_decoder.cpp b/src/librcl/scene_decoder.cpp
index 5a8e730..976e2ca 100644
--- a/src/librcl/scene_decoder.cpp
+++ b/src/librcl/scene_decoder.cpp
@@ -29,14 +29,15 @@ SceneDecoder::~SceneDecoder()
 
 void SceneDecoder::process()
 {
-  objectmodel::ObjectVector & objects = mObjectVectorOutput.data();
   while( not mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
     try
     {
-      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, objects );
-      mObjectVectorOutput.swapBuffers();
+      // Messages contain incremental changes to the scene. Therefore, the current write buffer must be fetched for each message,
+      // and the published value must be carried over to the next write buffer.
+      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, mObjectVectorOutput.data() );
+      mObjectVectorOutput.swapBuffers( true );
     }
     catch( std::exception const & ex )
     {
-- 
2.43.0


From 6b1d72a67c62e8b49dda677a007cf504dd657693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 02/48] fix: CAPGainCalculator: recalculate the gains when only
 the listener moves

The change flag of the listener input was tested again after it had been reset,
so a listener movement without a simultaneous scene update had no effect.
---
 src/librcl/cap_gain_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index fa7ece5..8225432 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -81,7 +81,8 @@ void CAPGainCalculator::setNearTripletBoundaryCosTheta(SampleType ct)
 
 void CAPGainCalculator::process()
 {
-  if( mListenerPositionInput.changed() )
+  bool const listenerChanged = mListenerPositionInput.changed();
+  if( listenerChanged )
   {
     pml::ListenerPosition const & listener = mListenerPositionInput.data();
     // Set the listener position and orientation
@@ -98,7 +99,7 @@ void CAPGainCalculator::process()
   }
 
   // TODO: decide whether to always process
-  if (mObjectVectorInput.changed() or mListenerPositionInput.changed())
+  if (mObjectVectorInput.changed() or listenerChanged)
   {
     efl::BasicMatrix<CoefficientType> & gains = mGainOutput.data();
     assert((gains.numberOfRows() == mNumberOfLoudspeakers) and (gains.numberOfColumns() == mNumberOfObjects));
-- 
2.43.0


From 0b92d5e8fda7447f86eacc79bdfc8df9705f78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 03/48] fix: do not ignore errors reported by the vector
 functions

Several callers discarded the error code (or created an exception object
without throwing it) and continued with uninitialised or stale buffers.
---
 src/libefl/basic_matrix.hpp                     |  5 ++++-
 src/librbbl/core_convolver_uniform.cpp          | 11 +++++++----
 src/librbbl/crossfading_convolver_uniform.cpp   |  8 ++++++--
 src/librbbl/interpolating_convolver_uniform.cpp |  8 ++++++--
 src/librcl/delay_vector.cpp                     |  7 +++++--
 src/librcl/gain_matrix.cpp                      |  5 ++++-
 src/librcl/gain_vector.cpp                      |  5 ++++-
 src/librcl/sparse_gain_matrix.cpp               |  5 ++++-
 src/librcl/time_frequency_transform.cpp         |  8 ++++++--
 src/librrl/communication_area.cpp               |  9 +++++++--
 10 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/libefl/basic_matrix.hpp b/src/libefl/basic_matrix.hpp
index f772176..8af8dc8 100644
--- a/src/libefl/basic_matrix.hpp
+++ b/src/libefl/basic_matrix.hpp
@@ -214,7 +214,10 @@ public:
 
   void setRow( std::size_t rowIdx, ElementType const * values )
   {
-    efl::vectorCopy( values, row( rowIdx), numberOfColumns() );
+    if( efl::vectorCopy( values, row( rowIdx), numberOfColumns() ) != noError )
+    {
+      throw std::runtime_error( "BasicMatrix::setRow(): Copying of row values failed." );
+    }
   }
 
   void setColumn( std::size_t colIdx, ElementType const * values )
diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..6320474 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -238,7 +238,7 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
       if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
@@ -267,9 +267,12 @@ void CoreConvolverUniform<SampleType>::setFilter( FrequencyDomainType const * tr
   {
     throw std::invalid_argument( "CoreConvolverUniform::setFilter(): filter index exceeds number of filters" );
   }
-  efl::vectorCopy( transformedFilter, mFilterPartitionsFrequencyDomain.row( filterIdx ),
-                   mFilterPartitionsFrequencyDomain.numberOfColumns(),
-                   std::min( alignment, mComplexAlignment ) );
+  if( efl::vectorCopy( transformedFilter, mFilterPartitionsFrequencyDomain.row( filterIdx ),
+                       mFilterPartitionsFrequencyDomain.numberOfColumns(),
+                       std::min( alignment, mComplexAlignment ) ) != efl::noError )
+  {
+    throw std::runtime_error( "CoreConvolverUniform::setFilter(): Error while copying data." );
+  }
 }
 
 // explicit instantiations
diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..2185bdf 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -110,8 +110,12 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
   // to zero, copy or add the buffers as appropriate.
   for( std::size_t outputIdx( 0 ); outputIdx < numberOfOutputs(); ++outputIdx )
   {
-    efl::vectorZero( output + outputIdx * outputChannelStride, blockSize,
-                     alignment );
+    if( efl::vectorZero( output + outputIdx * outputChannelStride, blockSize,
+                         alignment ) != efl::noError )
+    {
+      throw std::runtime_error(
+          "CrossfadingConvolverUniform: Error while clearing the outputs." );
+    }
   }
 
   for( RoutingEntry const & routing: mRoutingTable )
diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..3399e01 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -210,8 +210,12 @@ void InterpolatingConvolverUniform< SampleType >::initFilters(
   for( std::size_t filterIdx( numFilters );
        filterIdx < maxNumberOfFilterEntries(); ++filterIdx )
   {
-    efl::vectorZero( mFilters.row( filterIdx ), mFilters.numberOfColumns(),
-                     mFilters.alignmentElements() );
+    if( efl::vectorZero( mFilters.row( filterIdx ), mFilters.numberOfColumns(),
+                         mFilters.alignmentElements() ) != efl::noError )
+    {
+      throw std::runtime_error(
+          "InterpolatingConvolverUniform: Error while clearing unused filters." );
+    }
   }
 }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..4e952f7 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -42,8 +42,11 @@ void DelayVector::setup( std::size_t numberOfChannels,
 {
   efl::BasicVector< SampleType > delayVector( numberOfChannels, cVectorAlignmentSamples );
   efl::BasicVector< SampleType > gainVector( numberOfChannels, cVectorAlignmentSamples );
-  efl::vectorFill( initialDelaySeconds, delayVector.data(), numberOfChannels, cVectorAlignmentSamples );
-  efl::vectorFill( initialGainLinear, gainVector.data(), numberOfChannels, cVectorAlignmentSamples );
+  if( efl::vectorFill( initialDelaySeconds, delayVector.data(), numberOfChannels, cVectorAlignmentSamples ) != efl::noError
+      or efl::vectorFill( initialGainLinear, gainVector.data(), numberOfChannels, cVectorAlignmentSamples ) != efl::noError )
+  {
+    throw std::runtime_error( "DelayVector::setup(): Error initialising the delay or gain vector." );
+  }
 
   setup( numberOfChannels, interpolationSteps, maximumDelaySeconds, interpolationMethod,
          methodDelayPolicy, controlInputs,
diff --git a/src/librcl/gain_matrix.cpp b/src/librcl/gain_matrix.cpp
index 610fb00..e94e76a 100644
--- a/src/librcl/gain_matrix.cpp
+++ b/src/librcl/gain_matrix.cpp
@@ -85,7 +85,10 @@ void GainMatrix::process()
     std::size_t const align{mOutput.alignmentSamples()};
     for( std::size_t chIdx{0}; chIdx < mOutput.width(); ++chIdx )
     {
-      efl::vectorZero( mOutput[chIdx], bufferSize, align );
+      if( efl::vectorZero( mOutput[chIdx], bufferSize, align ) != efl::noError )
+      {
+        status( StatusMessage::Error, "Error while clearing output channel ", chIdx, "." );
+      }
     }
     return;
   }
diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..78400fd 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -37,7 +37,10 @@ void GainVector::setup( std::size_t numberOfChannels,
                          SampleType initialGainLinear /* = static_cast<SampleType>(0.0) */ )
 {
   efl::BasicVector< SampleType > gainVector( numberOfChannels, cVectorAlignmentSamples );
-  efl::vectorFill( initialGainLinear, gainVector.data(), numberOfChannels, cVectorAlignmentSamples );
+  if( efl::vectorFill( initialGainLinear, gainVector.data(), numberOfChannels, cVectorAlignmentSamples ) != efl::noError )
+  {
+    throw std::runtime_error( "GainVector::setup(): Error initialising the gain vector." );
+  }
 
   setup( numberOfChannels, interpolationSteps, controlInputs, gainVector );
 }
diff --git a/src/librcl/sparse_gain_matrix.cpp b/src/librcl/sparse_gain_matrix.cpp
index 7a2e044..bef0ee5 100644
--- a/src/librcl/sparse_gain_matrix.cpp
+++ b/src/librcl/sparse_gain_matrix.cpp
@@ -83,7 +83,10 @@ void SparseGainMatrix::process()
   std::size_t blockSize( period() );
   for( std::size_t outIdx(0); outIdx < numOutputs; ++outIdx )
   {
-    efl::vectorZero( mOutput[outIdx], blockSize, mOutput.alignmentSamples() );
+    if( efl::vectorZero( mOutput[outIdx], blockSize, mOutput.alignmentSamples() ) != efl::noError )
+    {
+      status( StatusMessage::Error, "Error while clearing output channel ", outIdx, "." );
+    }
   }
   for( auto r : mRoutings )
   {
diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..5234ce2 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -122,8 +122,12 @@ TimeFrequencyTransform::TimeFrequencyTransform(
         "TimeFrequencyTransform: Invalid hop size (no integer number of hops "
         "per audio processing period)." );
   }
-  efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
-                   mCalcBuffer.alignmentElements() );
+  if( efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
+                       mCalcBuffer.alignmentElements() ) != efl::noError )
+  {
+    throw std::runtime_error(
+        "TimeFrequencyTransform: Error initialising the calculation buffer." );
+  }
 
   SampleType const desiredNormalisation =
     (normalisation == Normalisation::One) ? 1.0f
diff --git a/src/librrl/communication_area.cpp b/src/librrl/communication_area.cpp
index 38bf633..a4d7ed3 100644
--- a/src/librrl/communication_area.cpp
+++ b/src/librrl/communication_area.cpp
@@ -5,6 +5,8 @@
 #include <libefl/alignment.hpp>
 #include <libefl/vector_functions.hpp>
 
+#include <stdexcept>
+
 namespace visr
 {
 namespace rrl
@@ -27,8 +29,11 @@ AudioSignalPool::~AudioSignalPool() = default;
   {
 #if 1
     // zero-initialize the content.
-    efl::vectorFill( static_cast<SampleType>(0), mStorage.data(), 
-                     numberOfSignals*mSignalStride, alignmentElements );
+    if( efl::vectorFill( static_cast<SampleType>(0), mStorage.data(),
+                         numberOfSignals*mSignalStride, alignmentElements ) != efl::noError )
+    {
+      throw std::runtime_error( "CommunicationArea: Initialisation of the signal storage failed." );
+    }
 #endif
   }
 
-- 
2.43.0


From c40b00ad466601b3aa404299f5f635e5773b54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 04/48] fix: LateReverbFilterCalculator: clear all remaining
 taps of the impulse response

The result of a comparison was passed as the number of elements.
---
 src/libreverbobject/late_reverb_filter_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libreverbobject/late_reverb_filter_calculator.cpp b/src/libreverbobject/late_reverb_filter_calculator.cpp
index 4ed72c0..5306bb3 100644
--- a/src/libreverbobject/late_reverb_filter_calculator.cpp
+++ b/src/libreverbobject/late_reverb_filter_calculator.cpp
@@ -220,7 +220,7 @@ calculateImpulseResponse( std::size_t objectIdx,
     // Zero any remaining zeros in the buffer
     if( irLength > mFilterLength )
     {
-      if( efl::vectorZero( ir + mFilterLength, irLength > mFilterLength, 0 /* no alignment spec possible */ ) != efl::noError )
+      if( efl::vectorZero( ir + mFilterLength, irLength - mFilterLength, 0 /* no alignment spec possible */ ) != efl::noError )
       {
         throw std::runtime_error( "ReverbParameterCalculator::calculateImpulseResponse(): Zeroing of remaining ir taps failed." );
       }
-- 
2.43.0


From d63f3b7badc866ba8cafd6196056ab4ffd16cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:37 +0000
Subject: [PATCH 05/48] fix: reject audio connections between ports of
 different sample types

The check compared the sample type of the receive port with itself.
---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..5b22576 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -143,6 +143,11 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the audio connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
       if( receivePortEntryIt->second > 0 )
       {
         messages << "Receive port of audio connection " << connection.first << "->" << connection.second << " is connected to more than one sender." << std::endl;
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From 9f308ad97f460a438bc1e99cb90fc7453ffc9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:37 +0000
Subject: [PATCH 06/48] fix: SchedulingGraph: throw the exceptions that report
 internal inconsistencies

---
 src/librrl/scheduling_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librrl/scheduling_graph.cpp b/src/librrl/scheduling_graph.cpp
index cebb99d..531039c 100644
--- a/src/librrl/scheduling_graph.cpp
+++ b/src/librrl/scheduling_graph.cpp
@@ -159,7 +159,7 @@ void SchedulingGraph::initialise( impl::ComponentImplementation const & flow, Au
         VertexMap::const_iterator predVertexIt = mVertexLookup.find( ProcessingNode(precAtom) );
         if( predVertexIt == mVertexLookup.end() )
         {
-          std::logic_error( "SchedulingGraph: Internal inconsistency: vertex descriptor of preceding atom not found.");
+          throw std::logic_error( "SchedulingGraph: Internal inconsistency: vertex descriptor of preceding atom not found.");
         }
         auto const sendVertexDescriptor = predVertexIt->second;
         insertDependencyEdge( sendVertexDescriptor, receiveVertexDescriptor );
@@ -287,7 +287,7 @@ void SchedulingGraph::insertDependencyEdge( GraphType::vertex_descriptor sourceV
   std::tie( edgeDesc, foundEdge ) = edge( sourceVertex, destVertex, mDependencyGraph );
   if( foundEdge )
   {
-    std::logic_error( "SchedulingGraph: Internal inconsistency: Duplicated edge found." );
+    throw std::logic_error( "SchedulingGraph: Internal inconsistency: Duplicated edge found." );
   }
   bool insertRes{ false };
   std::tie( edgeDesc, insertRes ) = add_edge( sourceVertex, destVertex, mDependencyGraph );
-- 
2.43.0


From 1e6a324cee82cc339d7352e1ca1f7cb8935f4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 07/48] fix: FlexibleBufferWrapper ignored the playback sample
 stride when writing a period in several chunks

---
 src/librrl/flexible_buffer_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..101b556 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr =
+        playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From 06f47563c8e04670968500f3c1cc7ccca13ca034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:58 +0000
Subject: [PATCH 08/48] fix: InterpolationParameterConfig::compare ignored the
 number of interpolants

---
 src/libpml/interpolation_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/interpolation_parameter.cpp b/src/libpml/interpolation_parameter.cpp
index 08f8d7e..db63ab9 100644
--- a/src/libpml/interpolation_parameter.cpp
+++ b/src/libpml/interpolation_parameter.cpp
@@ -29,8 +29,8 @@ bool InterpolationParameterConfig::compare( ParameterConfigBase const & rhs ) co
 {
   try
   {
-    // InterpolationParameterConfig const & iParam = dynamic_cast<InterpolationParameterConfig const &>(rhs);
-    return true; // compare( iParam );
+    InterpolationParameterConfig const & iParam = dynamic_cast<InterpolationParameterConfig const &>(rhs);
+    return compare( iParam );
   }
   catch( std::bad_cast const & /*ex*/ )
   {
-- 
2.43.0


From 1cc54bdbcfeacfc76e08247baac814716a058a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 09/48] fix: LoudspeakerArray assignment lost the output
 equalisation filters

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 23b5f40..14cd042 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -74,6 +74,10 @@ namespace panning
     m_subwooferGains.copy( rhs.m_subwooferGains );
     m_gainAdjustment.assign( rhs.m_gainAdjustment );
     m_delayAdjustment.assign( rhs.m_delayAdjustment );
+    if( &rhs != this )
+    {
+      mOutputEqs.reset( rhs.mOutputEqs ? new rbbl::BiquadCoefficientMatrix<SampleType>( *rhs.mOutputEqs ) : nullptr );
+    }
     return *this;
   }
   
-- 
2.43.0


From c7ec12a5996803e208f3eebc6204ca1a7e6376dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 10/48] fix: the block counter of the time object started with
 an undefined value

---
 src/libvisr/impl/time_implementation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libvisr/impl/time_implementation.cpp b/src/libvisr/impl/time_implementation.cpp
index b8734e7..89a3960 100644
--- a/src/libvisr/impl/time_implementation.cpp
+++ b/src/libvisr/impl/time_implementation.cpp
@@ -14,6 +14,7 @@ TimeImplementation( visr::SignalFlowContext const & context )
  , mSamplingFrequency( context.samplingFrequency() )
  , mSamplingFrequencyInverse( static_cast<ContinuousTimeType>(1.0)
     / static_cast<ContinuousTimeType>(context.samplingFrequency()))
+ , mBlockCounter( 0 )
 {
 }
 
-- 
2.43.0


From fa9f5c0a2ba4631aaeda17ce8489e8a6b3bae2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 11/48] fix: new audio objects had an undefined level, priority
 and (plane waves) direction and distance

---
 src/libobjectmodel/object.cpp     | 2 ++
 src/libobjectmodel/plane_wave.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/libobjectmodel/object.cpp b/src/libobjectmodel/object.cpp
index 5091e20..320da0f 100644
--- a/src/libobjectmodel/object.cpp
+++ b/src/libobjectmodel/object.cpp
@@ -29,6 +29,8 @@ namespace objectmodel
 Object::Object( ObjectId id )
  : mObjectId( id )
  , mGroupId( cDefaultGroupId )
+ , mLevel( static_cast<LevelType>(1.0) )
+ , mPriority( 0 )
 {
 }
 
diff --git a/src/libobjectmodel/plane_wave.cpp b/src/libobjectmodel/plane_wave.cpp
index 5e29668..81afdf3 100644
--- a/src/libobjectmodel/plane_wave.cpp
+++ b/src/libobjectmodel/plane_wave.cpp
@@ -9,6 +9,9 @@ namespace objectmodel
 
 PlaneWave::PlaneWave( ObjectId id )
  : Object( id )
+ , mIncidenceAzimuth( static_cast<Direction>(0.0) )
+ , mIncidenceElevation( static_cast<Direction>(0.0) )
+ , mReferenceDistance( static_cast<Coordinate>(1.0) )
 {
 }
 
-- 
2.43.0


From ae733e1c991dc215e99027c832087ef0b8e61205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 12/48] fix: a default-constructed LateReverbParameter had an
 undefined index

---
 src/libreverbobject/late_reverb_parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libreverbobject/late_reverb_parameter.cpp b/src/libreverbobject/late_reverb_parameter.cpp
index 1f5b4f2..563e9de 100644
--- a/src/libreverbobject/late_reverb_parameter.cpp
+++ b/src/libreverbobject/late_reverb_parameter.cpp
@@ -19,6 +19,7 @@ LateReverbParameter::LateReverbParameter( ParameterConfigBase const & )
 }
 
 LateReverbParameter::LateReverbParameter( pml::EmptyParameterConfig const & /*config = EmptyParameterConfig()*/ )
+  : mIndex( 0 )
 {}
 
 LateReverbParameter::~LateReverbParameter(){} //  = default;
-- 
2.43.0


From 18ae5d0a41b6ab4134995d81c501862369096859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:36 +0000
Subject: [PATCH 13/48] fix: the audio buffers of a signal flow started with
 undefined content

---
 src/librrl/communication_area.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/librrl/communication_area.cpp b/src/librrl/communication_area.cpp
index a4d7ed3..a659789 100644
--- a/src/librrl/communication_area.cpp
+++ b/src/librrl/communication_area.cpp
@@ -5,6 +5,7 @@
 #include <libefl/alignment.hpp>
 #include <libefl/vector_functions.hpp>
 
+#include <algorithm>
 #include <stdexcept>
 
 namespace visr
@@ -15,6 +16,7 @@ namespace rrl
 AudioSignalPool::AudioSignalPool( std::size_t size, std::size_t alignment )
  : mPool( size, alignment )
 {
+  std::fill_n( mPool.data(), size, 0 );
 }
 
 AudioSignalPool::~AudioSignalPool() = default;
-- 
2.43.0


From 3453352079225ae48e4a07c929e4a22bdf1ec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 14/48] fix: JackInterface: do not let an exception escape from
 the destructor

---
 src/libaudiointerfaces/jack_interface.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 306222a..5408d80 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -280,7 +280,14 @@ namespace visr
     
     JackInterface::Impl::~Impl()
     {
-      stop();
+      try
+      {
+        stop();
+      }
+      catch( std::exception const & ex ) // Destructors mustn't throw
+      {
+        std::cerr << "JackInterface: Error while stopping Jack client: " << ex.what() << std::endl;
+      }
       int const res = jack_client_close( mClient );
       if( res != 0 ) // Destructors mustn't throw
       {
-- 
2.43.0


From 366c9478586d1c396aff94a351c3e3a5b9ccd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 15/48] fix: PortaudioInterface: catch exceptions of the sample
 transfer in the audio callback

---
 src/libaudiointerfaces/portaudio_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 5037a75..0b0e12a 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -515,18 +515,18 @@ namespace // unnamed
   {
     if( mCallback )
     {
-      transferCaptureBuffers( input );
       bool res;
       try
       {
+        transferCaptureBuffers( input );
         (*mCallback)(mCallbackUserData, &mCaptureSampleBuffers[0], &mPlaybackSampleBuffers[0], res);
+        transferPlaybackBuffers( output );
       }
       catch( std::exception const & e )
       {
         std::cerr << "Error during execution of audio callback: " << e.what() << std::endl;
         return paAbort;
       }
-      transferPlaybackBuffers( output );
       // TODO: Replace by sophisticated return value depending on the status of the called functions.
       return paContinue;
     }
-- 
2.43.0


From 296b7ada114e9b541a9160eece057fc09662ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 16/48] fix: UdpSender: a failing asynchronous send must not
 terminate the application

---
 src/librcl/udp_sender.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 6235fec..d855ffd 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -16,6 +16,7 @@
 #endif
 
 #include <ciso646>
+#include <iostream>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -209,18 +210,20 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
 void UdpSender::Impl::handleSentData(const boost::system::error_code& error,
     std::size_t numBytesTransferred)
 {
+    // This function is executed in the service thread, an exception would terminate the application.
+    // Therefore a message that could not be sent is reported and dropped.
     if (error != boost::system::errc::success)
     {
-        throw std::runtime_error("UdpSender: Asynchronous send operation resulted in an error.");
+        std::cerr << "UdpSender: Asynchronous send operation resulted in an error: " << error.message() << std::endl;
     }
 #ifndef VISR_DISABLE_THREADS
     boost::lock_guard<boost::mutex> lock(mMutex);
 #endif
     assert(not mInternalMessageBuffer.empty());
     pml::StringParameter & currMsg = mInternalMessageBuffer.front();
-    if (currMsg.size() != numBytesTransferred)
+    if ((error == boost::system::errc::success) and (currMsg.size() != numBytesTransferred))
     {
-        throw std::runtime_error("UdpSender: Asynchronous send operation transmitted less bytes than the message length.");
+        std::cerr << "UdpSender: Asynchronous send operation transmitted less bytes than the message length." << std::endl;
     }
     mInternalMessageBuffer.pop_front();
     if (not mInternalMessageBuffer.empty())
-- 
2.43.0


From ae6b53af9cfc6d32fc50d057cc24f51e29e565ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:15 +0000
Subject: [PATCH 17/48] fix: UdpReceiver: do not deliver an empty message for a
 failed receive operation

---
 src/librcl/udp_receiver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librcl/udp_receiver.cpp b/src/librcl/udp_receiver.cpp
index 88b4a1f..2fdc53d 100644
--- a/src/librcl/udp_receiver.cpp
+++ b/src/librcl/udp_receiver.cpp
@@ -173,6 +173,7 @@ void UdpReceiver::Impl::process( UdpReceiver::MessageOutput & messageOutput )
 void UdpReceiver::Impl::handleReceiveData( const boost::system::error_code& error,
                                            std::size_t numBytesTransferred )
 {
+  if( not error ) // A failed operation did not provide a message.
   {
 #ifndef VISR_DISABLE_THREADS
     boost::lock_guard<boost::mutex> lock( mMutex );
-- 
2.43.0


From 058e8f05822ed8bad8e8e37ef2ff97d1fb15a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:15 +0000
Subject: [PATCH 18/48] fix: UdpSender: do not truncate messages at embedded
 NUL characters in asynchronous mode

---
 src/librcl/udp_sender.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index d855ffd..a561ee7 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -189,8 +189,7 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
       bool const transmissionPending = not mInternalMessageBuffer.empty();
       while( not messageInput.empty() )
       {
-        char const * nextMsg = messageInput.front().str();
-        mInternalMessageBuffer.push_back( pml::StringParameter( nextMsg ) );
+        mInternalMessageBuffer.push_back( messageInput.front() );
         messageInput.pop();
       }
       if( not mInternalMessageBuffer.empty() and not transmissionPending )
-- 
2.43.0


From c8d45d510cb16a53697c2816d5827e5c014d1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:15 +0000
Subject: [PATCH 19/48] fix: RuntimeProfiler::getMean: read the sample counter
 under the lock and return NaN if nothing has been measured

---
 src/librrl/runtime_profiler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librrl/runtime_profiler.cpp b/src/librrl/runtime_profiler.cpp
index 49baa03..2878e70 100644
--- a/src/librrl/runtime_profiler.cpp
+++ b/src/librrl/runtime_profiler.cpp
@@ -257,13 +257,14 @@ void RuntimeProfiler::getMean( efl::BasicVector<TimeType> & val ) const
   {
     throw std::invalid_argument( "Return value buffer has wrong size." );
   }
+  std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
+    mFlow.parameterExchangeMutex() };
   if( mStatisticsSampleCounter < 1 )
   {
     val.fillValue( std::numeric_limits<TimeType>::quiet_NaN() );
   }
+  else
   {
-    std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
-    mFlow.parameterExchangeMutex() };
     val.copy( mRunningMean );
   }
 }
-- 
2.43.0


From 8b55b8860c6df1580f51eeae4f50d940108d46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:40 +0000
Subject: [PATCH 20/48] fix: RuntimeProfiler::measurementBufferSize: do not
 access a buffer that is exchanged by other threads

---
 src/librrl/runtime_profiler.cpp | 3 ++-
 src/librrl/runtime_profiler.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/librrl/runtime_profiler.cpp b/src/librrl/runtime_profiler.cpp
index 2878e70..18f8abb 100644
--- a/src/librrl/runtime_profiler.cpp
+++ b/src/librrl/runtime_profiler.cpp
@@ -28,6 +28,7 @@ RuntimeProfiler::RuntimeProfiler( AudioSignalFlow const & flow,
                                   std::size_t measureBufferSize )
 : mFlow{ flow }
 , cNumberOfAtomicComponents{ flow.mProcessingSchedule.size() }
+, cMeasurementBufferSize{ measureBufferSize }
 , mMeasurementSampleCounter{ 0 }
 , mStatisticsSampleCounter{ 0 }
 , mCurrentData( cNumberOfAtomicComponents, visr::cVectorAlignmentSamples )
@@ -194,7 +195,7 @@ void RuntimeProfiler::resetStatistics()
 
 std::size_t RuntimeProfiler::measurementBufferSize() const
 {
-  return mCurrentMeasurementBuffer.numberOfRows();
+  return cMeasurementBufferSize;
 }
 
 std::size_t RuntimeProfiler::measurementSamples() const
diff --git a/src/librrl/runtime_profiler.hpp b/src/librrl/runtime_profiler.hpp
index 14968b6..4310b33 100644
--- a/src/librrl/runtime_profiler.hpp
+++ b/src/librrl/runtime_profiler.hpp
@@ -203,6 +203,12 @@ private:
   AudioSignalFlow const & mFlow;
   
   std::size_t const cNumberOfAtomicComponents;
+
+  /**
+   * Number of iterations that can be stored. Fixed, and therefore
+   * accessible without locking.
+   */
+  std::size_t const cMeasurementBufferSize;
   
   std::size_t mMeasurementSampleCounter;
   
-- 
2.43.0


From 515745bef78e9b9b1cd7a6c75fdbff911119df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:05 +0000
Subject: [PATCH 21/48] fix: Python bindings: release the GIL while waiting for
 the parameter exchange lock or the audio thread

---
 .../audiointerfaces/audio_interface.cpp       |  3 ++-
 src/python/rrl/audio_signal_flow.cpp          | 14 ++++++++------
 src/python/rrl/flexible_buffer_wrapper.cpp    | 19 +++++++++++++------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/python/audiointerfaces/audio_interface.cpp b/src/python/audiointerfaces/audio_interface.cpp
index 41a9f1d..87b432d 100644
--- a/src/python/audiointerfaces/audio_interface.cpp
+++ b/src/python/audiointerfaces/audio_interface.cpp
@@ -86,7 +86,8 @@ void exportAudioInterface( pybind11::module & m )
   ai.def( "registerCallback", &registerFlowCallback, pybind11::arg("flow"))
     .def( "unregisterCallback", &unregisterFlowCallback )
     .def( "start", &visr::audiointerfaces::AudioInterface::start )
-    .def( "stop", &visr::audiointerfaces::AudioInterface::stop )
+    // Stopping waits for the audio thread, which might need the GIL to execute Python components.
+    .def( "stop", &visr::audiointerfaces::AudioInterface::stop, pybind11::call_guard<pybind11::gil_scoped_release>() )
     .def_property_readonly( "numberOfCaptureChannels", &visr::audiointerfaces::AudioInterface::numberOfCaptureChannels )
     .def_property_readonly( "numberOfPlaybackChannels", &visr::audiointerfaces::AudioInterface::numberOfPlaybackChannels )
     .def_property_readonly( "period", &visr::audiointerfaces::AudioInterface::period )
diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 31d4b89..4e05392 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -58,12 +58,14 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
 
   try
   {
-    flow.process( static_cast<SampleType const *>(input.data()),
-                  input.strides(0)/sizeof(SampleType),
-                  input.strides(1)/sizeof(SampleType),
-                  static_cast<SampleType *>(outputSignal.mutable_data()),
-                  outChannelStride,
-                  outSampleStride );
+    SampleType const * const inputSamples = static_cast<SampleType const *>(input.data());
+    std::size_t const inChannelStride = input.strides(0)/sizeof(SampleType);
+    std::size_t const inSampleStride = input.strides(1)/sizeof(SampleType);
+    SampleType * const outputSamples = static_cast<SampleType *>(outputSignal.mutable_data());
+    // process() waits for the parameter exchange mutex. Its owner might need the GIL to proceed.
+    py::gil_scoped_release release;
+    flow.process( inputSamples, inChannelStride, inSampleStride,
+                  outputSamples, outChannelStride, outSampleStride );
   }
   catch( std::exception const & ex )
   {
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index a224c3b..0587f4d 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -73,13 +73,20 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
 
   try
   {
+    SampleType const *const inputSamples =
+        static_cast< SampleType const * >( input.data() );
+    std::size_t const inChannelStride =
+        input.strides( 0 ) / sizeof( SampleType );
+    std::size_t const inSampleStride =
+        input.strides( 1 ) / sizeof( SampleType );
+    SampleType *const outputSamples =
+        static_cast< SampleType * >( outputSignal.mutable_data() );
+    // process() waits for the parameter exchange mutex of the signal flow. Its
+    // owner might need the GIL to proceed.
+    py::gil_scoped_release release;
     visr::rrl::FlexibleBufferWrapper::process(
-        static_cast< SampleType const * >( input.data() ),
-        input.strides( 0 ) / sizeof( SampleType ),
-        input.strides( 1 ) / sizeof( SampleType ),
-        static_cast< SampleType * >( outputSignal.mutable_data() ),
-        outChannelStride, outSampleStride,
-        numFrames );
+        inputSamples, inChannelStride, inSampleStride, outputSamples,
+        outChannelStride, outSampleStride, numFrames );
   }
   catch( std::exception const &ex )
   {
-- 
2.43.0


From 39317dbfec93026583f6d98856aa217b788d6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:05 +0000
Subject: [PATCH 22/48] fix: Python bindings: AudioInterface.stop() called the
 Python method start()

---
 src/python/audiointerfaces/audio_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/audiointerfaces/audio_interface.cpp b/src/python/audiointerfaces/audio_interface.cpp
index 87b432d..9b14111 100644
--- a/src/python/audiointerfaces/audio_interface.cpp
+++ b/src/python/audiointerfaces/audio_interface.cpp
@@ -31,7 +31,7 @@ namespace // unnamed
 
     void stop() override
     {
-      PYBIND11_OVERLOAD_PURE( void, AudioInterface, start, );
+      PYBIND11_OVERLOAD_PURE( void, AudioInterface, stop, );
     }
   };
 
-- 
2.43.0


From e6af6ca213e7b5f3b3b9c2c485a2608f6ffadb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 23/48] fix: pythoncomponents::Wrapper: hold the GIL until a
 failed construction has released its Python objects

---
 src/libpythoncomponents/wrapper.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/libpythoncomponents/wrapper.cpp b/src/libpythoncomponents/wrapper.cpp
index c99616a..de7babb 100644
--- a/src/libpythoncomponents/wrapper.cpp
+++ b/src/libpythoncomponents/wrapper.cpp
@@ -46,6 +46,27 @@ namespace py = pybind11;
 class Wrapper::Impl
 {
 public:
+  /**
+   * Create an implementation object while holding the Python global interpreter lock.
+   * The lock must outlive the object under construction, because a failing constructor releases the Python
+   * objects that are already assigned to data members.
+   */
+  static std::unique_ptr<Impl> create( SignalFlowContext const & context,
+                                       char const * name,
+                                       Wrapper * parent,
+                                       char const * moduleName,
+                                       char const * componentClassName,
+                                       char const * positionalArguments,
+                                       char const * keywordArguments,
+                                       char const * moduleSearchPath )
+  {
+    // Ensure that we have a thread state for the current thread.
+    pythonsupport::GilEnsureGuard guard;
+    return std::unique_ptr<Impl>( new Impl( context, name, parent, moduleName, componentClassName,
+                                            positionalArguments, keywordArguments, moduleSearchPath ) );
+  }
+
+private:
   explicit Impl( SignalFlowContext const & context,
                  char const * name,
                  Wrapper * parent,
@@ -54,7 +75,6 @@ public:
                  char const * positionalArguments,
                  char const * keywordArguments,
                  char const * moduleSearchPath = nullptr );
-private:
   /**
   * A vector holding an arbitrary number of input ports
   */
@@ -93,8 +113,8 @@ Wrapper::Wrapper( SignalFlowContext const & context,
                               char const * keywordArguments,
                               char const * moduleSearchPath /*= nullptr*/ )
   : CompositeComponent( context, (std::string(name)+std::string("_wrapper")).c_str(), parent )
-  , mImpl( new Impl( context, name, this, moduleName, componentClassName,
-                    positionalArguments, keywordArguments, moduleSearchPath ) )
+  , mImpl( Impl::create( context, name, this, moduleName, componentClassName,
+                         positionalArguments, keywordArguments, moduleSearchPath ) )
 {}
 
 
@@ -107,9 +127,6 @@ Wrapper::Impl::Impl( SignalFlowContext const & context,
                            char const * keywordArguments,
                            char const * moduleSearchPath)
 {
-  // Ensure that we have a thread state for the current thread.
-  pythonsupport::GilEnsureGuard guard;
-
   py::object main     = py::module::import("__main__");
   py::object globals  = main.attr("__dict__");
   // Cleverer alternative?
-- 
2.43.0


From 22e1a8b1441fc0100039d6ae3dd76d02bdd1c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 24/48] fix: Python bindings of biquad coefficients: loadXml,
 writeJson, writeXml, resize and the size property called the wrong functions

---
 src/python/rbbl/biquad_coefficient.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 3e6f086..b20d7c1 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -108,16 +108,16 @@ namespace
         } ), py::arg( "initList" ), "Constructor from list of biquads" )
       .def_static( "fromJson", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromJson( str ); } )
       .def_static( "fromXml", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromXml( str ); } )
-      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::size )
-      .def( "resize", &BiquadCoefficientList<CoeffType>::size )
+      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::resize )
+      .def( "resize", &BiquadCoefficientList<CoeffType>::resize, py::arg( "newSize" ) )
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
       .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
-      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson) )
-      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
+      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
       ;
   }
 
@@ -139,9 +139,9 @@ namespace
      .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
-     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson) )
-     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
+     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
     ;
   }
 
-- 
2.43.0


From 1bc39c0933cffae4a69fca092d3c34a78f06a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:23 +0000
Subject: [PATCH 25/48] fix: Python bindings: keep objects alive that are
 referenced by flexible buffer wrappers, audio interfaces and CAP gain
 calculators

---
 src/python/audiointerfaces/audio_interface.cpp | 2 +-
 src/python/rcl/cap_gain_calculator.cpp         | 4 +++-
 src/python/rrl/flexible_buffer_wrapper.cpp     | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/audiointerfaces/audio_interface.cpp b/src/python/audiointerfaces/audio_interface.cpp
index 9b14111..84b6f3b 100644
--- a/src/python/audiointerfaces/audio_interface.cpp
+++ b/src/python/audiointerfaces/audio_interface.cpp
@@ -83,7 +83,7 @@ void exportAudioInterface( pybind11::module & m )
     .def_property_readonly( "period", &visr::audiointerfaces::AudioInterface::Configuration::periodSize )
   ;
 
-  ai.def( "registerCallback", &registerFlowCallback, pybind11::arg("flow"))
+  ai.def( "registerCallback", &registerFlowCallback, pybind11::arg("flow"), pybind11::keep_alive<1, 2>() )
     .def( "unregisterCallback", &unregisterFlowCallback )
     .def( "start", &visr::audiointerfaces::AudioInterface::start )
     // Stopping waits for the audio thread, which might need the GIL to execute Python components.
diff --git a/src/python/rcl/cap_gain_calculator.cpp b/src/python/rcl/cap_gain_calculator.cpp
index fc3d9db..7a1d38c 100644
--- a/src/python/rcl/cap_gain_calculator.cpp
+++ b/src/python/rcl/cap_gain_calculator.cpp
@@ -44,7 +44,9 @@ void exportCAPGainCalculator( pybind11::module & m )
 	 py::arg( "numberOfObjects" ),
 	 py::arg( "arrayConfig" ),
 	 py::arg( "panningMode" ) = CAPGainCalculator::PanningMode::LF,
-	 py::arg( "hfGainOutput" ) = false )
+	 py::arg( "hfGainOutput" ) = false,
+	 // The gain calculator holds a reference to the loudspeaker configuration.
+	 py::keep_alive<1, 6>() )
   ; 
 }
 
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index 0587f4d..066aff4 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -103,7 +103,7 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
 void exportFlexibleBufferWrapper( py::module &m )
 {
   py::class_< FlexibleBufferWrapper >( m, "FlexibleBufferWrapper" )
-      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::arg( "flow" ) )
+      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::arg( "flow" ), py::keep_alive<1, 2>() )
       .def("process", &FlexibleBufferWrapper::process,
           py::arg( "input" ),
           py::return_value_policy::take_ownership )
-- 
2.43.0


From 616be62bcc38f9ddf007252e9f0b5c776486e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:31 +0000
Subject: [PATCH 26/48] fix: IndexSequence and FloatSequence report malformed
 ranges with standard exceptions

---
 src/librbbl/float_sequence.cpp | 2 +-
 src/librbbl/index_sequence.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index aa1df4b..7ea864a 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -90,7 +90,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
         if( std::abs(inc) < std::numeric_limits<ElementType>::epsilon() )
         {
-          throw("FloatSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
         ElementType val = start;
         if( inc > 0 )
diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 6b9a782..33ecdc1 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -51,7 +51,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const val = mStack[0];
         if( val < 0 )
         {
-          throw("IndexSequence: Indices must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: Indices must be greater or equal than zero." );
         }
         mContents.push_back( static_cast<IndexType>(val) );
         break;
@@ -62,7 +62,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[1];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         IndexType val = static_cast<IndexType>(mStack[0]);
         while( val <= static_cast<IndexType>(end) )
@@ -78,11 +78,11 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[2];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         if( inc == 0 )
         {
-          throw("IndexSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
         int val = start;
         if( inc > 0 )
-- 
2.43.0


From 09bab33d2421cd12bcadd1c8d3b461959bcc16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 27/48] fix: ranges in IndexSequence and FloatSequence texts
 always end

---
 src/librbbl/float_sequence.cpp | 22 +++++++++++++++++++---
 src/librbbl/index_sequence.cpp |  6 +++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index 7ea864a..2844305 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -60,6 +60,15 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       mStack.push_back( val );
     }
 
+    // Ensure that a range is finite, i.e., that an increment is not lost due to the limited precision.
+    static void checkProgress( ElementType current, ElementType next )
+    {
+      if( next == current )
+      {
+        throw std::invalid_argument( "FloatSequence: The increment of a range is too small compared to its values." );
+      }
+    }
+
     void finish()
     {
       switch( mStack.size() )
@@ -78,7 +87,10 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
         ElementType const end = mStack[1];
         while( val <= end )
         {
-          mContents.push_back( val++ );
+          mContents.push_back( val );
+          ElementType const next = val + static_cast<ElementType>( 1 );
+          checkProgress( val, next );
+          val = next;
         }
         break;
       }
@@ -98,7 +110,9 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
           while( val <= end )
           {
             mContents.push_back( val );
-            val += inc;
+            ElementType const next = val + inc;
+            checkProgress( val, next );
+            val = next;
           }
         }
         else // inc < 0
@@ -106,7 +120,9 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
           while( val >= end )
           {
             mContents.push_back( val );
-            val += inc;
+            ElementType const next = val + inc;
+            checkProgress( val, next );
+            val = next;
           }
         }
         break;
diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 33ecdc1..e291136 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -84,12 +84,12 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
-        int val = start;
+        long long val = start; // Wider than the range limits, to avoid an overflow of the last increment
         if( inc > 0 )
         {
           while( val <= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
@@ -97,7 +97,7 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           while( val >= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
-- 
2.43.0


From 44e820fbeac292c99c25f42a5c6871c3a6c66eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 28/48] fix: throw the exceptions created for incomplete audio
 files and ragged biquad matrices

---
 src/libpml/matrix_parameter.cpp    | 4 ++--
 src/libpml/vector_parameter.cpp    | 4 ++--
 src/librbbl/biquad_coefficient.cpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libpml/matrix_parameter.cpp b/src/libpml/matrix_parameter.cpp
index 0b85f74..c256472 100644
--- a/src/libpml/matrix_parameter.cpp
+++ b/src/libpml/matrix_parameter.cpp
@@ -291,12 +291,12 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
     sf_count_t const numReadRaw = read_samples<ElementType>( fileHandle, tmpStorage, numRows*numCols );
     if( numReadRaw < 0 )
     {
-      std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data failed." );
+      throw std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data failed." );
     }
     std::size_t const numRead = static_cast<std::size_t>(numReadRaw);
     if( numRead != numRows * numCols )
     {
-      std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data reeturned a wrong number of arguments." );
+      throw std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data reeturned a wrong number of arguments." );
     }
     // De-interleaving, might be implemented in a library function
     for( std::size_t rowIdx(0); rowIdx < numRows; ++rowIdx )
diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index 82bd9c0..9515969 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -232,12 +232,12 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
     sf_count_t const numReadRaw = read_samples<ElementType>( fileHandle, resultVec, numElements );
     if( numReadRaw < 0 )
     {
-      std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data failed." );
+      throw std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data failed." );
     }
     std::size_t const numRead = static_cast<std::size_t>(numReadRaw);
     if( numRead != numElements )
     {
-      std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data returned a wrong number of arguments." );
+      throw std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data returned a wrong number of arguments." );
     }
     sf_close( fileHandle );
     fileHandle = nullptr;
diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index c2c512a..e535e9e 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -554,7 +554,7 @@ void BiquadCoefficientMatrix<CoeffType>::loadJson( boost::property_tree::ptree c
     assert( numBiquads != unInitMarker ); // Check that initialisation is performed during the first run.
     if( rowFilters.size() != numBiquads )
     {
-      std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
+      throw std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
     }
     setFilter( rowIdx, rowFilters );
   }
-- 
2.43.0


From 7ef77173a06bc14ad6685acefb48f346d253a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 29/48] fix: throw only types derived from std::exception

---
 src/librbbl/biquad_coefficient.cpp | 2 +-
 src/librrl/scheduling_graph.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index e535e9e..d53c96f 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -172,7 +172,7 @@ void BiquadCoefficient<CoeffType>::writeJson( std::basic_ostream<char> & stream
     write_json( stream, tree);
   } catch (std::exception const & ex)
   {
-    throw( detail::composeMessageString( "Error while writing BiquadCoefficient message to JSON: ", ex.what() ) );
+    throw std::invalid_argument( detail::composeMessageString( "Error while writing BiquadCoefficient message to JSON: ", ex.what() ) );
   }
 }
 
diff --git a/src/librrl/scheduling_graph.cpp b/src/librrl/scheduling_graph.cpp
index 531039c..2e2d844 100644
--- a/src/librrl/scheduling_graph.cpp
+++ b/src/librrl/scheduling_graph.cpp
@@ -206,7 +206,7 @@ std::string SchedulingGraph::nodeName( ProcessingNode const & node ) const
     case NodeType::Processor:
       return node.node()->fullName();
   }
-  throw(-1); // Can't happen, but to avoid compiler warning
+  throw std::logic_error( "SchedulingGraph: Invalid node type." ); // Can't happen, but to avoid compiler warning
 }
 
 bool SchedulingGraph::checkAcyclicGraph( std::ostream & messages ) const
-- 
2.43.0


From 7e9cee5c8ff47cf1a099989727f49f0dee0e5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 30/48] fix: BiquadCoefficientList assignment created an
 exception it never threw

Assigning lists of different sizes is used (e.g. when loudspeaker arrays are assigned), so drop the check.
---
 src/librbbl/biquad_coefficient.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.hpp b/src/librbbl/biquad_coefficient.hpp
index b6ccaea..aeb2776 100644
--- a/src/librbbl/biquad_coefficient.hpp
+++ b/src/librbbl/biquad_coefficient.hpp
@@ -211,15 +211,10 @@ public:
   static BiquadCoefficientList fromXml( std::string const & str );
 
   /**
-   * Assign the content from another BiquadCoefficientList with consistent size.
-   * @throw std::invalid_argument If \p rhs has a different size.
+   * Assign the content from another BiquadCoefficientList, including its size.
    */
   BiquadCoefficientList & operator=(BiquadCoefficientList const & rhs)
   {
-    if( rhs.size() != size() )
-    {
-      std::invalid_argument( "BiquadCoefficientList: Size of argument to be assigned does not match." );
-    }
     mBiquads = rhs.mBiquads;
     return *this;
   }
-- 
2.43.0


From 7b2f52b5e8296a2b5dc1c4f019021ef2a36d0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 31/48] fix: write the equaliser settings of audio objects in
 the format they are read

---
 src/libobjectmodel/object_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/object_parser.cpp b/src/libobjectmodel/object_parser.cpp
index 1292fe6..aa63af8 100644
--- a/src/libobjectmodel/object_parser.cpp
+++ b/src/libobjectmodel/object_parser.cpp
@@ -74,7 +74,7 @@ ObjectParser::~ObjectParser() = default;
   if( !obj.eqCoefficients().empty() )
   {
     boost::property_tree::ptree eqNode;
-    obj.eqCoefficients().writeXml( eqNode );
+    obj.eqCoefficients().writeJson( eqNode );
     tree.add_child( "eq", eqNode );
   }
 }
-- 
2.43.0


From 3784b3c314a893f66250dcf1865951dbdcbd2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 32/48] fix: write XML elements of ParametricIirCoefficientList
 in XML format

---
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 38d5732..ef65c77 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -451,7 +451,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeXml( boost::property_
   for( Element const & el : *this )
   {
     boost::property_tree::ptree child;
-    el.writeJson( child );
+    el.writeXml( child );
     tree.add_child( "eq", child ); // XML needs named nodes
   }
 }
-- 
2.43.0


From 6d456dde62f4fa7201fe4637350b48ae08748960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 33/48] fix: ParametricIirCoefficient::writeJson() wrote
 nothing to the stream

---
 src/librbbl/parametric_iir_coefficient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index ef65c77..b54adbe 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -296,6 +296,7 @@ void ParametricIirCoefficient< CoefficientType >::writeJson( std::basic_ostream<
 {
   boost::property_tree::ptree tree;
   writeJson( tree );
+  boost::property_tree::write_json( stream, tree );
 }
 
 template< typename CoefficientType >
-- 
2.43.0


From fefe60e9a572226ddb832cd89624f24a04be8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 34/48] fix: ParametricIirCoefficient::loadXml() used the XML
 text as a file name

---
 src/librbbl/parametric_iir_coefficient.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index b54adbe..82c33f5 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -236,8 +236,6 @@ void ParametricIirCoefficient< CoefficientType >::loadJson( std::string const &
 template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::loadXml( boost::property_tree::ptree const & tree )
 {
-  boost::property_tree::write_xml( std::cout, tree );
-
   std::string const & typeStr = tree.get<std::string>( "<xmlattr>.type" );
   Type const typeId  = stringToTypeId( typeStr );
   CoefficientType const frequency = tree.get<CoefficientType>( "<xmlattr>.f" );
@@ -267,16 +265,8 @@ void ParametricIirCoefficient<CoefficientType>::loadXml( std::basic_istream<char
 template< typename CoefficientType >
 void ParametricIirCoefficient<CoefficientType>::loadXml( std::string const & str )
 {
-  boost::property_tree::ptree tree;
-  try
-  {
-    read_xml( str, tree );
-  }
-  catch( std::exception const & ex )
-  {
-    throw std::invalid_argument( std::string( "Error while parsing a XML ParametricIirCoefficient node: " ) + ex.what() );
-  }
-  loadXml( tree );
+  std::stringstream stream( str );
+  loadXml( stream );
 }
 
 template< typename CoefficientType >
-- 
2.43.0


From e357caa23ef497cd6963896c6836daae62987d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:11 +0000
Subject: [PATCH 35/48] fix: implement the XML output of biquad coefficients
 and coefficient lists

---
 src/librbbl/biquad_coefficient.cpp | 35 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index d53c96f..42f1fbd 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -187,21 +187,36 @@ void BiquadCoefficient<CoeffType>::writeJson( std::string & str ) const
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( boost::property_tree::ptree & tree ) const
 {
-  // TODO: implement me!
-  assert( false );
+  tree.put( "<xmlattr>.b0", b0() );
+  tree.put( "<xmlattr>.b1", b1() );
+  tree.put( "<xmlattr>.b2", b2() );
+  tree.put( "<xmlattr>.a1", a1() );
+  tree.put( "<xmlattr>.a2", a2() );
 }
 
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree child;
+  writeXml( child );
   boost::property_tree::ptree tree;
-  writeJson( tree );
-
+  tree.add_child( "biquad", child );
+  try
+  {
+    write_xml( stream, tree );
+  }
+  catch( std::exception const & ex )
+  {
+    throw std::invalid_argument( std::string( "Error while writing BiquadCoefficient to XML: " ) + ex.what( ) );
+  }
 }
 
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( std::string & str ) const
 {
+  std::stringstream stream;
+  writeXml( stream );
+  str = stream.str();
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -374,15 +389,21 @@ void BiquadCoefficientList<CoeffType>::writeJson( std::string & str ) const
 template< typename CoeffType >
 void BiquadCoefficientList<CoeffType>::writeXml( boost::property_tree::ptree & tree ) const
 {
-  // TODO: implement me!
-  assert( false );
+  for( std::size_t idx( 0 ); idx < size(); ++idx )
+  {
+    boost::property_tree::ptree child;
+    at( idx ).writeXml( child );
+    tree.add_child( "biquad", child );
+  }
 }
 
 template< typename CoeffType >
 void BiquadCoefficientList<CoeffType>::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree child;
+  writeXml( child );
   boost::property_tree::ptree tree;
-  writeXml( tree );
+  tree.add_child( "filterSpec", child );
   try
   {
     write_xml( stream, tree );
-- 
2.43.0


From 6042615364a3532b86542d8aff4111ef289291b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:11 +0000
Subject: [PATCH 36/48] fix: BiquadCoefficientMatrix::writeJson() wrote nothing

---
 src/librbbl/biquad_coefficient.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index 42f1fbd..b166e37 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -648,14 +648,12 @@ void BiquadCoefficientMatrix<CoeffType>::loadXml( std::string const & str )
 template< typename CoeffType >
 void BiquadCoefficientMatrix<CoeffType>::writeJson( boost::property_tree::ptree & tree ) const
 {
-#if 0
-  for( std::size_t idx( 0 ); idx < size(); ++idx )
+  for( BiquadCoefficientList<CoeffType> const & row : mRows )
   {
     boost::property_tree::ptree child;
-    at( idx ).writeJson( child );
+    row.writeJson( child );
     tree.push_back( std::make_pair( "", child ) );
   }
-#endif
 }
 
 template< typename CoeffType >
-- 
2.43.0


From 5c5d3ff1d5b92659d5c4628492d76b8c2531f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:23 +0000
Subject: [PATCH 37/48] fix: ParametricIirCoefficientList::writeJson() aborted
 for non-empty lists

---
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 82c33f5..bf58009 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -409,7 +409,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeJson( boost::property
   {
     boost::property_tree::ptree child;
     el.writeJson( child );
-    tree.add_child("", child ); // Adding unnamed childs creates a JSON array.
+    tree.push_back( std::make_pair( "", child ) ); // Adding unnamed childs creates a JSON array.
   }
 }
 
-- 
2.43.0


From 3d3036c7a5f569a7628ba95c90d4e8984ee57b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:48 +0000
Subject: [PATCH 38/48] fix: write the diffuseness of point sources with
 extent, which is required for reading

---
 src/libobjectmodel/point_source_extent_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_extent_parser.cpp b/src/libobjectmodel/point_source_extent_parser.cpp
index 3eb4de1..dda19fa 100644
--- a/src/libobjectmodel/point_source_extent_parser.cpp
+++ b/src/libobjectmodel/point_source_extent_parser.cpp
@@ -41,7 +41,7 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
   // note: cannot check for object type id since obj might be a subclass of PointSource
   PointSourceExtent const& pseObj = dynamic_cast<PointSourceExtent const&>(obj);
 
-  PointSourceParser::write( obj, tree );
+  PointSourceWithDiffusenessParser::write( obj, tree );
   tree.put<PointSource::Coordinate>( "width", pseObj.width() );
   tree.put<PointSource::Coordinate>( "height", pseObj.height() );
   tree.put<PointSource::Coordinate>( "depth", pseObj.depth() );
-- 
2.43.0


From de17b7d5448099b27a565f4c669134b4a6c1b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 39/48] fix: a message that cannot be sent blocked all later
 messages of UdpSender

---
 src/librcl/udp_sender.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index a561ee7..465f349 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -170,13 +170,18 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
     while( not messageInput.empty() )
     {
       pml::StringParameter const & nextMsg = messageInput.front( );
-      // boost::system::error_code err;
-      std::size_t bytesSent = mSocket->send_to( boost::asio::buffer(nextMsg.str(), nextMsg.size()), mRemoteEndpoint );
-      if( bytesSent != nextMsg.size() )
+      boost::system::error_code err;
+      std::size_t const bytesSent = mSocket->send_to( boost::asio::buffer(nextMsg.str(), nextMsg.size()), mRemoteEndpoint, 0, err );
+      bool const complete = (bytesSent == nextMsg.size());
+      messageInput.pop( ); // Remove the message in any case, otherwise one that cannot be sent would block all others.
+      if( err )
+      {
+        throw std::runtime_error( "UdpSender: Error while sending a message: " + err.message() );
+      }
+      if( not complete )
       {
         throw std::runtime_error( "Number of sent bytes differs from message size." );
       }
-      messageInput.pop( );
     }
     break;
   case Mode::Asynchronous:
-- 
2.43.0


From 39a56bc82aaa9af7d27445feba73f361d3317e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 40/48] fix: rejected filter and reverb messages stayed queued
 and were handled again

---
 src/librcl/crossfading_fir_filter_matrix.cpp          | 2 +-
 src/librcl/fir_filter_matrix.cpp                      | 6 +++---
 src/librcl/interpolating_fir_filter_matrix.cpp        | 9 ++++-----
 src/libreverbobject/late_reverb_filter_calculator.cpp | 1 +
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/librcl/crossfading_fir_filter_matrix.cpp b/src/librcl/crossfading_fir_filter_matrix.cpp
index 132d759..34db242 100644
--- a/src/librcl/crossfading_fir_filter_matrix.cpp
+++ b/src/librcl/crossfading_fir_filter_matrix.cpp
@@ -83,13 +83,13 @@ void CrossfadingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop(); // Remove the message in any case, also if it turns out to be invalid.
 
       try
       {
         // Argument checking is done inside the method.
         setFilter( newFilter.index(), &newFilter.value()[ 0 ],
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
diff --git a/src/librcl/fir_filter_matrix.cpp b/src/librcl/fir_filter_matrix.cpp
index 71acad3..d549a99 100644
--- a/src/librcl/fir_filter_matrix.cpp
+++ b/src/librcl/fir_filter_matrix.cpp
@@ -80,12 +80,12 @@ void FirFilterMatrix::process()
     while( not mSetFilterInput->empty() )
     {
       pml::IndexedValueParameter<std::size_t, std::vector<SampleType> > const newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop(); // Remove the message in any case, also if it turns out to be invalid.
 
       try
       {
         // Argument checking is done inside the method.
         setFilter( newFilter.index(), &newFilter.value()[0], newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
@@ -112,16 +112,16 @@ void FirFilterMatrix::process()
   {
     while( not mSingleRoutingInput->empty() )
     {
+      rbbl::FilterRouting const entry( mSingleRoutingInput->front() );
+      mSingleRoutingInput->pop(); // Remove the message in any case, also if it turns out to be invalid.
       try
       {
-        rbbl::FilterRouting const & entry{ mSingleRoutingInput->front() };
         addRouting( entry );
       }
       catch( std::exception const & ex )
       {
         status( StatusMessage::Error, "FirFilterMatrix: Error while setting filter routing: ", ex.what() );      
       }      
-      mSingleRoutingInput->pop();
     }
   }
   mConvolver->process( mInput.data(), mInput.channelStrideSamples(), 
diff --git a/src/librcl/interpolating_fir_filter_matrix.cpp b/src/librcl/interpolating_fir_filter_matrix.cpp
index f838f81..508030d 100644
--- a/src/librcl/interpolating_fir_filter_matrix.cpp
+++ b/src/librcl/interpolating_fir_filter_matrix.cpp
@@ -97,13 +97,13 @@ void InterpolatingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop(); // Remove the message in any case, also if it turns out to be invalid.
 
       try
       {
         // Argument checking is done inside the method.
         setFilter( newFilter.index(), &newFilter.value()[ 0 ],
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
@@ -122,13 +122,12 @@ void InterpolatingFirFilterMatrix::process()
   {
     while( not mInterpolantInput->empty() )
     {
+      rbbl::InterpolationParameter const param( mInterpolantInput->front() );
+      mInterpolantInput->pop(); // Remove the message in any case, also if it turns out to be invalid.
       try
       {
-        rbbl::InterpolationParameter const & param = mInterpolantInput->front();
-
-        setInterpolant( param, true/*startTransition*/ );
         // Argument checking is done inside the method.
-        mInterpolantInput->pop();
+        setInterpolant( param, true/*startTransition*/ );
       }
       catch( std::exception const & ex )
       {
diff --git a/src/libreverbobject/late_reverb_filter_calculator.cpp b/src/libreverbobject/late_reverb_filter_calculator.cpp
index 5306bb3..630f88e 100644
--- a/src/libreverbobject/late_reverb_filter_calculator.cpp
+++ b/src/libreverbobject/late_reverb_filter_calculator.cpp
@@ -148,6 +148,7 @@ void LateReverbFilterCalculator::process( )
     LateReverbParameter const & val = mSubbandInput.front();
     if( val.index() >= mNumberOfObjects )
     {
+      mSubbandInput.pop(); // Do not handle the invalid message again.
       throw std::out_of_range( "LateReverbFilterCalculator: Object index out of range." );
     }
     std::vector<SampleType> newFilter( mFilterLength );
-- 
2.43.0


From 126ba009db1caaa2df2bc1d1e7de9a556ada5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 41/48] fix: ChannelObject::setOutputChannels( val, numValues )
 discarded the channel ids it was given

---
 src/libobjectmodel/channel_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/channel_object.cpp b/src/libobjectmodel/channel_object.cpp
index 35ce389..6ea6df1 100644
--- a/src/libobjectmodel/channel_object.cpp
+++ b/src/libobjectmodel/channel_object.cpp
@@ -68,8 +68,10 @@ void ChannelObject::setOutputChannels(OutputChannelId const * val, std::size_t n
   // TODO: Devise proper way to enforce class invariants between the channel count set by the base class and the output channel vector of this object.
   // TODO: Same problem for HOA objects.
   mOutputChannels.resize(numValues);
-  // TODO: Define semanticvs (or remove method altogether.
-  // std::copy( val, val + numValues, OutputChannelsPerInput( 1, mOutputChannels.begin() ) );
+  for( std::size_t chIdx( 0 ); chIdx < numValues; ++chIdx )
+  {
+    mOutputChannels[chIdx] = OutputChannelList( 1, val[chIdx] );
+  }
 }
 
 void ChannelObject::setOutputChannel(std::size_t index, OutputChannelId val)
-- 
2.43.0


From 754267ad1e911a699db40d44d667c28b0e1da4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 42/48] fix: objectmodel::ObjectVector: assigning a vector to
 itself deleted all objects

---
 src/libobjectmodel/object_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..10c3ed9 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -25,6 +25,10 @@ ObjectVector& ObjectVector::operator=( ObjectVector && rhs ) = default;
 
 void ObjectVector::assign( ObjectVector const & rhs )
 {
+  if( &rhs == this )
+  {
+    return; // Clearing the own contents would discard the objects to be assigned.
+  }
   mObjects.clear();
   for( ObjectContainer::value_type const & v : rhs.mObjects )
   {
-- 
2.43.0


From b5025d454d7ceaea75f0e64cb053f50483c9b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 43/48] fix: LoudspeakerArray: assigning an array to itself
 zeroed the rerouting and subwoofer gains

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 14cd042..e9a9476 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -61,6 +61,10 @@ namespace panning
   
   LoudspeakerArray const &  LoudspeakerArray::operator=( LoudspeakerArray const & rhs )
   {
+    if( &rhs == this )
+    {
+      return *this; // Resizing the matrices would discard the contents to be assigned.
+    }
     m_is2D = rhs.m_is2D;
     m_isInfinite = rhs.m_isInfinite;
     m_position = rhs.m_position;
-- 
2.43.0


From 38ecb1086a18f1716053121478d65afdd0b6825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:32 +0000
Subject: [PATCH 44/48] fix: keep the signal flow alive while Python holds its
 parameter exchange mutex or guard

---
 src/python/rrl/audio_signal_flow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 4e05392..18d656a 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -134,8 +134,8 @@ R"(Python binding for the mutex type used by AudioSignalFlow to guard the exchan
 
   py::class_< ParameterExchangeMutexGuard >( cls, "ParameterExchangeMutexGuard",
 R"( Context manager to acquire the parameter exchange critical section lock with the Python "with" statement.)")
-    .def( py::init< ParameterExchangeMutex & >(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
-    .def( py::init< AudioSignalFlow & >(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
+    .def( py::init< ParameterExchangeMutex & >(), py::keep_alive<1, 2>(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
+    .def( py::init< AudioSignalFlow & >(), py::keep_alive<1, 2>(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
     .def( "__enter__", &ParameterExchangeMutexGuard::enter, py::return_value_policy::reference,
 R"(Implement the "__enter__" method of the ContextManager API. Called within the with statment, usually not called directly by users.)" )
     .def( "__exit__", &ParameterExchangeMutexGuard::exit,
@@ -174,7 +174,7 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
      },
      py::return_value_policy::take_ownership, "process() variant for flows with no audio inputs." )
    .def( "parameterExchangeMutex", &AudioSignalFlow::parameterExchangeMutex,
-     py::return_value_policy::reference, R"(Obtain the mutex for guarding the parameter data exchange,)" )
+     py::return_value_policy::reference_internal, R"(Obtain the mutex for guarding the parameter data exchange,)" )
 #ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
    .def( "runtimeProfilingEnabled", &AudioSignalFlow::runtimeProfilingEnabled )
    .def( "enableRuntimeProfiling", &AudioSignalFlow::enableRuntimeProfiling, py::arg( "measurementBufferSize" ) )
-- 
2.43.0


From 1dda0fd84da3820fab644751acc0971a1acfa40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:46 +0000
Subject: [PATCH 45/48] fix: fromJson of the routing lists is callable from
 Python without a list to start from

---
 src/python/rbbl/filter_routing.cpp      | 2 +-
 src/python/rbbl/sparse_gain_routing.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index e0ec8d3..d8f2e9b 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -43,7 +43,7 @@ void exportFilterRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const FilterRoutingList &>() )
-    .def_static( "fromJson", [](FilterRoutingList &, std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(FilterRoutingList::*)(std::string const &)>(&FilterRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 22cec37..5caec1f 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -42,7 +42,7 @@ void exportSparseGainRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const SparseGainRoutingList &>(), "Copy constructor" )
-    .def_static( "fromJson", []( SparseGainRoutingList &, std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(SparseGainRoutingList::*)(std::string const &)>(&SparseGainRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &SparseGainRoutingList::empty )
     .def_property_readonly("size", &SparseGainRoutingList::size )
-- 
2.43.0


From 8a4278382db4028fa9ae79c3520ef1e2e5ac420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 46/48] fix: vectorMultiplyConstantAddInplace: unaligned
 accumulators were written with an aligned store instruction

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..5781847 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -410,7 +410,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
-- 
2.43.0


From b33d8a55acc76433cbea06f1fa95e531f782531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 47/48] fix: uninitialiseLibrary did not restore the reference
 implementation of vectorMultiplyAddInplace<double>

---
 src/libefl/intel_x86_64/initialise_library.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libefl/intel_x86_64/initialise_library.cpp b/src/libefl/intel_x86_64/initialise_library.cpp
index e9a6421..ee08737 100644
--- a/src/libefl/intel_x86_64/initialise_library.cpp
+++ b/src/libefl/intel_x86_64/initialise_library.cpp
@@ -86,6 +86,7 @@ bool uninitialiseLibrary()
   VectorMultiplyAddWrapper< float >::set( &reference::vectorMultiplyAdd<float> );
   VectorMultiplyAddWrapper< std::complex<float> >::set( &reference::vectorMultiplyAdd<std::complex<float> > );
   VectorMultiplyAddInplaceWrapper< float >::set( &reference::vectorMultiplyAddInplace<float> );
+  VectorMultiplyAddInplaceWrapper< double >::set( &reference::vectorMultiplyAddInplace<double> );
   VectorMultiplyAddInplaceWrapper< std::complex<float> >::set( &reference::vectorMultiplyAddInplace<std::complex<float> > );
   VectorMultiplyConstantAddWrapper< float >::set( &reference::vectorMultiplyConstantAdd<float> );
   VectorMultiplyConstantAddWrapper< std::complex<float> >::set( &reference::vectorMultiplyConstantAdd<std::complex<float> > );
-- 
2.43.0


From 0ce5363330c2956306ac2b6222582b7291d8112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 48/48] fix: vectorRamp: the mean value for single-element
 ramps was overwritten

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0

