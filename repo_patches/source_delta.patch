From 38f2b96911899d4bf5900f15bb6c9eddb310ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 01/28] fix: a Key built from an unknown name or number is
 never one of the 24 keys

---
 include/key.h | 2 +-
 src/key.cc    | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/key.h b/include/key.h
index 56cce26..7b5ec52 100644
--- a/include/key.h
+++ b/include/key.h
@@ -89,7 +89,7 @@ class Key {
     };
 
  private:
-    int m_key;
+    int m_key = -1;  // not a key until one is recognized
     std::string m_keyString;
     std::map<std::string, int> m_stringToIntMap;
     const std::string m_allKeyStrings[NUMBER_OF_KEYS] = {
diff --git a/src/key.cc b/src/key.cc
index ab48a04..1991bcb 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -154,12 +154,18 @@ Key Key::getParallelKey() const {
 }
 
 Key Key::getDominantKey() const {
+    if (!this->isMajorKey() && !this->isMinorKey()) {
+        return *this;
+    }
     int dominant = (m_key + 7) % 12;
     dominant += this->isMinorKey() ? 12 : 0;
     return Key(dominant);
 }
 
 Key Key::getSubDominantKey() const {
+    if (!this->isMajorKey() && !this->isMinorKey()) {
+        return *this;
+    }
     int subdominant = (m_key + 5) % 12;
     subdominant += this->isMinorKey() ? 12 : 0;
     return Key(subdominant);
-- 
2.43.0


From 8c575911e4ba6bcdcd58b5799ee45efcd28947bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 02/28] fix: a PitchClass built from an unknown name or number
 is never a pitch class

---
 include/pitchclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pitchclass.h b/include/pitchclass.h
index c900317..0557282 100644
--- a/include/pitchclass.h
+++ b/include/pitchclass.h
@@ -65,7 +65,7 @@ class PitchClass {
     };
 
  private:
-    int m_pitchClass;
+    int m_pitchClass = -1;  // not a pitch class until one is recognized
     std::string m_pitchClassString;
     std::map<std::string, int> m_stringToIntMap;
     const std::string m_allPitchClassStrings[
-- 
2.43.0


From e72126420cb727448f939e15fe71ac5aeb7b4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 03/28] fix: decoding a model again does not append to the
 previous key sequence

---
 src/hiddenmarkovmodel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hiddenmarkovmodel.cc b/src/hiddenmarkovmodel.cc
index a7c60c5..7a997f7 100644
--- a/src/hiddenmarkovmodel.cc
+++ b/src/hiddenmarkovmodel.cc
@@ -181,6 +181,7 @@ void HiddenMarkovModel::printOutput() {
 }
 
 void HiddenMarkovModel::runViterbi() {
+  m_keySequence.clear();
   std::vector<ViterbiLayer> m_viterbi;
   ViterbiLayer currentLayer;
   ViterbiNode currentNode;
-- 
2.43.0


From 5cb7257235ac4440fac2f55716681334f0f6ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/28] fix: a model with nothing to decode stays undecoded
 instead of crashing

---
 src/hiddenmarkovmodel.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hiddenmarkovmodel.cc b/src/hiddenmarkovmodel.cc
index 7a997f7..150032f 100644
--- a/src/hiddenmarkovmodel.cc
+++ b/src/hiddenmarkovmodel.cc
@@ -182,6 +182,11 @@ void HiddenMarkovModel::printOutput() {
 
 void HiddenMarkovModel::runViterbi() {
   m_keySequence.clear();
+  if (m_observations.empty()) {
+    // Nothing to decode
+    m_status = Status::HIDDENMARKOVMODEL_UNINITIALIZED;
+    return;
+  }
   std::vector<ViterbiLayer> m_viterbi;
   ViterbiLayer currentLayer;
   ViterbiNode currentNode;
@@ -235,6 +240,11 @@ void HiddenMarkovModel::runViterbi() {
           lastState = itLastState->first;
         }
       }
+      if (lastState == -1) {
+        // No sequence of states can produce these observations
+        m_status = Status::HIDDENMARKOVMODEL_UNINITIALIZED;
+        return;
+      }
     }
     m_keySequence.push_back(Key(lastState));
     currentNode = lastLayer.at(lastState);
-- 
2.43.0


From b6f35774191bde3f6b2bd8ebc1495b036b4155cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 05/28] fix: the last frame of a chromagram is not compared
 with the end of the map

---
 src/chromagram.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chromagram.cc b/src/chromagram.cc
index 1dfb662..8043e27 100644
--- a/src/chromagram.cc
+++ b/src/chromagram.cc
@@ -47,7 +47,9 @@ PitchClass::PitchClassSequence Chromagram::getPitchClassSequence() {
     PitchClass::PitchClassSequence pitchClassSequence;
     for (ChromagramMap::const_iterator itChr = m_discreteChromagramMap.begin();
         itChr != m_discreteChromagramMap.end(); itChr++) {
-        if (itChr->second == std::next(itChr)->second) {
+        ChromagramMap::const_iterator itNext = std::next(itChr);
+        if (itNext != m_discreteChromagramMap.end() &&
+            itChr->second == itNext->second) {
             continue;
         }
         ChromagramVector chrVector = itChr->second;
-- 
2.43.0


From c3bb14f87472a9596921d5b5f122c392f3113ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 06/28] fix: a negative chroma magnitude counts as no notes
 instead of looping through the int range

---
 src/chromagram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chromagram.cc b/src/chromagram.cc
index 8043e27..10fe890 100644
--- a/src/chromagram.cc
+++ b/src/chromagram.cc
@@ -56,7 +56,7 @@ PitchClass::PitchClassSequence Chromagram::getPitchClassSequence() {
         for (int pc = 0; pc < chrVector.size(); pc++) {
             int n = static_cast<int>(chrVector[pc]);
             if (n) n--;
-            while (n) {
+            while (n > 0) {
                 pitchClassSequence.push_back(PitchClass(pc));
                 n--;
             }
-- 
2.43.0


From 977a42bf6f393e6e5e593a41d1ce65ebfdc29f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 07/28] fix: a CSV token that is not a finite number is an
 input file error instead of an uncaught exception

---
 include/chromagram.h |  1 +
 src/chromagram.cc    | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/chromagram.h b/include/chromagram.h
index 91033a6..994e34b 100644
--- a/include/chromagram.h
+++ b/include/chromagram.h
@@ -36,6 +36,7 @@ SOFTWARE.
 #include<vector>
 #include<map>
 #include<cmath>
+#include<cstdlib>
 #include<iostream>
 #include<fstream>
 #include<sstream>
diff --git a/src/chromagram.cc b/src/chromagram.cc
index 10fe890..5a3cfa8 100644
--- a/src/chromagram.cc
+++ b/src/chromagram.cc
@@ -118,16 +118,22 @@ void Chromagram::getChromagramFromCsv(std::string csvFilename) {
         std::string token;
         int i = 0;
         while ( std::getline(sstr, token, ',') ) {
+            char *end;
+            float value = std::strtof(token.c_str(), &end);
+            if (end == token.c_str() || !std::isfinite(value)) {
+                m_originalChromagramMap.clear();
+                m_status = Status::CHROMAGRAM_INPUTFILE_ERROR;
+                return;
+            }
             if (i == 0) {
-                timeStamp = std::stof(token);
+                timeStamp = value;
             } else {
                 // NNLS orders chromagrams from A-G#
                 // we want to store them as C-B instead
                 int pcIndex =
                     (PitchClass::PITCHCLASS_A_NATURAL + (i-1))
                     % PitchClass::NUMBER_OF_PITCHCLASSES;
-                m_originalChromagramMap[timeStamp][pcIndex] =
-                    std::stof(token);
+                m_originalChromagramMap[timeStamp][pcIndex] = value;
             }
             i++;
         }
-- 
2.43.0


From cf417458669b8afbadb5f649af2947eab9d52f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 08/28] fix: sf_open reads SF_INFO's format, so it must not be
 uninitialised

---
 src/chromagram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chromagram.cc b/src/chromagram.cc
index 5a3cfa8..a0dd5b9 100644
--- a/src/chromagram.cc
+++ b/src/chromagram.cc
@@ -144,7 +144,7 @@ void Chromagram::getChromagramFromCsv(std::string csvFilename) {
 }
 
 void Chromagram::getChromagramFromAudio(std::string audioFile) {
-    SF_INFO sfinfo;
+    SF_INFO sfinfo = SF_INFO();
     SNDFILE *sndfile = sf_open(audioFile.c_str(), SFM_READ, &sfinfo);
     if (!sndfile) {
         m_status = Status::CHROMAGRAM_INPUTFILE_ERROR;
-- 
2.43.0


From 43d4a5c62e9cace3c2faea31fecf7a8f34a61f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 09/28] fix: Midi::getPitchClassSequence returns the sequence

---
 src/midi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/midi.cc b/src/midi.cc
index f01af79..c2571f1 100644
--- a/src/midi.cc
+++ b/src/midi.cc
@@ -52,6 +52,7 @@ PitchClass::PitchClassSequence Midi::getPitchClassSequence() {
          pcSequence.push_back(PitchClass(pitch % 12));
       }
    }
+   return pcSequence;
 }
 
 int Midi::getStatus() const {
-- 
2.43.0


From c6bd63f2d95d83bc9da82699101d5d794cc18f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 10/28] fix: a printed chromagram keeps the precision it was
 computed with

---
 include/chromagram.h | 1 +
 src/chromagram.cc    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/chromagram.h b/include/chromagram.h
index 994e34b..f4f40d1 100644
--- a/include/chromagram.h
+++ b/include/chromagram.h
@@ -37,6 +37,7 @@ SOFTWARE.
 #include<map>
 #include<cmath>
 #include<cstdlib>
+#include<limits>
 #include<iostream>
 #include<fstream>
 #include<sstream>
diff --git a/src/chromagram.cc b/src/chromagram.cc
index a0dd5b9..d0035ab 100644
--- a/src/chromagram.cc
+++ b/src/chromagram.cc
@@ -70,6 +70,8 @@ void Chromagram::printChromagram() {
         m_status != Status::CHROMAGRAM_DISCRETE_READY) {
         return;
     }
+    std::streamsize precision =
+        std::cout.precision(std::numeric_limits<float>::max_digits10);
     for (ChromagramMap::const_iterator itChr = m_discreteChromagramMap.begin();
          itChr != m_discreteChromagramMap.end(); itChr++) {
         double timestamp = itChr->first;
@@ -81,6 +83,7 @@ void Chromagram::printChromagram() {
         }
         std::cout << std::endl;
     }
+    std::cout.precision(precision);
 }
 
 void Chromagram::printOriginalChromagram(bool startOnANatural=true) {
@@ -88,6 +91,8 @@ void Chromagram::printOriginalChromagram(bool startOnANatural=true) {
         m_status != Status::CHROMAGRAM_DISCRETE_READY) {
         return;
     }
+    std::streamsize precision =
+        std::cout.precision(std::numeric_limits<float>::max_digits10);
     for (ChromagramMap::const_iterator itChr = m_originalChromagramMap.begin();
             itChr != m_originalChromagramMap.end(); itChr++) {
         double timestamp = itChr->first;
@@ -102,6 +107,7 @@ void Chromagram::printOriginalChromagram(bool startOnANatural=true) {
         }
         std::cout << std::endl;
     }
+    std::cout.precision(precision);
 }
 
 void Chromagram::getChromagramFromCsv(std::string csvFilename) {
-- 
2.43.0


From c1be71026926673ffe226917f3374e024b6bf001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 11/28] fix: -f compares the format with the choices it offers

---
 src/justkeydding.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/justkeydding.cc b/src/justkeydding.cc
index 9f5b15c..e55dfa4 100644
--- a/src/justkeydding.cc
+++ b/src/justkeydding.cc
@@ -63,11 +63,11 @@ int main(int argc, char *argv[]) {
             // What kind of file are we reading
             std::string format = static_cast<std::string>(
                 options.get("inputformat"));
-            if (format == ".wav") {
+            if (format == "wav") {
                 inputType = justkeydding::INPUT_WAV;
-            } else if (format == ".csv") {
+            } else if (format == "csv") {
                 inputType = justkeydding::INPUT_CSV;
-            } else if (format == ".midi") {
+            } else if (format == "midi") {
                 inputType = justkeydding::INPUT_MIDI;
             }
         } else {
-- 
2.43.0


From a3b114e904a420d3ae80efe268a7718d889592ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 12/28] fix: an input file without extension gets the format
 message instead of an uncaught exception

---
 src/justkeydding.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/justkeydding.cc b/src/justkeydding.cc
index e55dfa4..36cc600 100644
--- a/src/justkeydding.cc
+++ b/src/justkeydding.cc
@@ -72,8 +72,10 @@ int main(int argc, char *argv[]) {
             }
         } else {
             // The user did not provide a file format, let's find out
+            std::size_t extensionDot = filename.find_last_of(".");
             std::string extension =
-                filename.substr(filename.find_last_of("."));
+                extensionDot == std::string::npos ?
+                "" : filename.substr(extensionDot);
             std::transform(
                 extension.begin(),
                 extension.end(),
-- 
2.43.0


From 72fc25b9af274d877dc4d96747a9a4726d397498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 13/28] fix: more than 24 custom key transitions are counted,
 not written past the array

---
 src/justkeydding.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/justkeydding.cc b/src/justkeydding.cc
index 36cc600..aee38c8 100644
--- a/src/justkeydding.cc
+++ b/src/justkeydding.cc
@@ -132,7 +132,9 @@ int main(int argc, char *argv[]) {
             double val = 0;
             int i = 0;
             while (arrayStream >> val) {
-                customKeyTransition[i] = val;
+                if (i < Key::NUMBER_OF_KEYS) {
+                    customKeyTransition[i] = val;
+                }
                 i++;
             }
             if (i != Key::NUMBER_OF_KEYS) {
-- 
2.43.0


From 49cc2c234715fd767f3e0e147bdd4845e89abfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 14/28] fix: plugin outputs have numbers even when the host
 never queries the outputs

---
 nnls-chroma-1.1/Chordino.cpp   | 4 ++++
 nnls-chroma-1.1/NNLSChroma.cpp | 8 +++++++-
 nnls-chroma-1.1/Tuning.cpp     | 4 +++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/nnls-chroma-1.1/Chordino.cpp b/nnls-chroma-1.1/Chordino.cpp
index 09d9093..facb07b 100644
--- a/nnls-chroma-1.1/Chordino.cpp
+++ b/nnls-chroma-1.1/Chordino.cpp
@@ -31,6 +31,10 @@ const bool debug_on = false;
 
 Chordino::Chordino(float inputSampleRate) :
     NNLSBase(inputSampleRate),
+    m_outputChords(0),
+    m_outputChordnotes(1),
+    m_outputHarmonicChange(2),
+    m_outputLoglikelihood(3),
     m_chorddict(0),
     m_chordnotes(0),
     m_chordnames(0)    
diff --git a/nnls-chroma-1.1/NNLSChroma.cpp b/nnls-chroma-1.1/NNLSChroma.cpp
index fc7fc2f..934004f 100644
--- a/nnls-chroma-1.1/NNLSChroma.cpp
+++ b/nnls-chroma-1.1/NNLSChroma.cpp
@@ -29,7 +29,13 @@
 const bool debug_on = false;
 
 NNLSChroma::NNLSChroma(float inputSampleRate) :
-    NNLSBase(inputSampleRate)
+    NNLSBase(inputSampleRate),
+    m_outputLogfreqspec(0),
+    m_outputTunedlogfreqspec(1),
+    m_outputSemitonespectrum(2),
+    m_outputChroma(3),
+    m_outputBasschroma(4),
+    m_outputBothchroma(5)
 {
     if (debug_on) cerr << "--> NNLSChroma" << endl;
 }
diff --git a/nnls-chroma-1.1/Tuning.cpp b/nnls-chroma-1.1/Tuning.cpp
index 5b878c6..50265bb 100644
--- a/nnls-chroma-1.1/Tuning.cpp
+++ b/nnls-chroma-1.1/Tuning.cpp
@@ -29,7 +29,9 @@
 const bool debug_on = false;
 
 Tuning::Tuning(float inputSampleRate) :
-    NNLSBase(inputSampleRate)
+    NNLSBase(inputSampleRate),
+    m_outputTuning(0),
+    m_outputLocalTuning(1)
 {
     if (debug_on) cerr << "--> Tuning" << endl;
 }
-- 
2.43.0


From a58166160fad0249695f507c29cb6c686343e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 15/28] fix: sf_open reads SF_INFO's format in the extractor
 programs too

---
 nnls-chroma-1.1/chordextract.cpp  | 2 +-
 nnls-chroma-1.1/chromaextract.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnls-chroma-1.1/chordextract.cpp b/nnls-chroma-1.1/chordextract.cpp
index 0afc916..b9be584 100644
--- a/nnls-chroma-1.1/chordextract.cpp
+++ b/nnls-chroma-1.1/chordextract.cpp
@@ -58,7 +58,7 @@ int main(int argc, char **argv)
 
     const char *infile = argv[1];
 
-    SF_INFO sfinfo;
+    SF_INFO sfinfo = SF_INFO();
     SNDFILE *sndfile = sf_open(infile, SFM_READ, &sfinfo);
 
     if (!sndfile) {
diff --git a/nnls-chroma-1.1/chromaextract.cpp b/nnls-chroma-1.1/chromaextract.cpp
index 4223394..223cb36 100644
--- a/nnls-chroma-1.1/chromaextract.cpp
+++ b/nnls-chroma-1.1/chromaextract.cpp
@@ -58,7 +58,7 @@ int main(int argc, char **argv)
 
   const char *infile = argv[1];
 
-  SF_INFO sfinfo;
+  SF_INFO sfinfo = SF_INFO();
   SNDFILE *sndfile = sf_open(infile, SFM_READ, &sfinfo);
 
   if (!sndfile) {
-- 
2.43.0


From ef9bbbd21e0543d7a33aac5b655cc25738128bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 16/28] fix: no single key explaining the local keys is a model
 error instead of a crash

---
 src/justkeydding.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/justkeydding.cc b/src/justkeydding.cc
index aee38c8..c8edea7 100644
--- a/src/justkeydding.cc
+++ b/src/justkeydding.cc
@@ -241,6 +241,12 @@ int main(int argc, char *argv[]) {
         zeroTransiionProbabilities,
         transitionProbabilities);
     hmm2.runViterbi();
+    if ((status = hmm2.getStatus()) !=
+        Status::HIDDENMARKOVMODEL_VITERBI_READY) {
+        std::cerr << "There was an error while"
+                    " running the model." << std::endl;
+        return status;
+    }
     keySequence = hmm2.getKeySequence();
     HiddenMarkovModel::ProbabilityVector probabilityVector = hmm2.getProbabilityVector();
     Key mainKey = keySequence.front();
-- 
2.43.0


From a96923b068788c2024c0cec767698dddf37c193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 17/28] fix: the built-in geometric key transitions have the
 ratio the evolver mutates

---
 optimizer/evolver.py         |  5 ++++-
 optimizer/key_transitions.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/optimizer/evolver.py b/optimizer/evolver.py
index d99580f..e464b46 100644
--- a/optimizer/evolver.py
+++ b/optimizer/evolver.py
@@ -113,9 +113,12 @@ class Evolver:
         for idx, key_transition_name in enumerate(new_key_transitions):
             if key_transition_name.startswith('ktg'):
                 if mutation_prob > random.random():
+                    ratio = key_transitions.get_ratio(key_transition_name)
+                    if ratio is None:
+                        # Not a geometric key transition, there is no ratio to mutate
+                        continue
                     mutation_name = 'ktgm{}'.format(self.kt_id)
                     self.kt_id += 1
-                    ratio = key_transitions.get_ratio(key_transition_name)
                     new_ratio = random.uniform(ratio - ratio*mutation_ratio, ratio + ratio*mutation_ratio)
                     kt = self.generator.generate_geometric_key_transition(new_ratio)
                     self.logger.debug('mutation:{}, parent:{}, original_ratio={}, mutation_ratio={}'.format(mutation_name, key_transition_name, ratio, new_ratio))
diff --git a/optimizer/key_transitions.py b/optimizer/key_transitions.py
index 733fbee..e0845a9 100644
--- a/optimizer/key_transitions.py
+++ b/optimizer/key_transitions.py
@@ -94,8 +94,15 @@ _kt = {
 }
 
 _ratios = {
-    "exponential2": 2,
-    "exponential10": 10
+    "ktg_exponential2": 2,
+    "ktg_exponential4": 4,
+    "ktg_exponential5": 5,
+    "ktg_exponential10": 10,
+    "ktg_exponential12": 12,
+    "ktg_exponential15": 15,
+    "ktg_exponential20": 20,
+    "ktg_experiment6": 29.39510597060596,
+    "ktg_napoles_midi128": 15.8451151
 }
 
 def insert_new(name, kt):
-- 
2.43.0


From 820e337a6d49a04fe450dc07e6d9d68d037d24b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 18/28] fix: a distribution that sums to more than 1 is
 reported like one that sums to less

---
 optimizer/key_profiles.py    | 4 ++--
 optimizer/key_transitions.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimizer/key_profiles.py b/optimizer/key_profiles.py
index 2f386cb..afee04b 100644
--- a/optimizer/key_profiles.py
+++ b/optimizer/key_profiles.py
@@ -142,9 +142,9 @@ def mix(major_name, minor_name):
 def insert_new(name, kp):
     major_sum = sum(kp[:12])
     minor_sum = sum(kp[12:])
-    if 1.0 - abs(major_sum) > 0.01:
+    if abs(1.0 - major_sum) > 0.01:
         logger.warn('{} sum of major key profile is {} when it is expected to be 1.0'.format(name, major_sum))
-    if 1.0 - abs(minor_sum) > 0.01:
+    if abs(1.0 - minor_sum) > 0.01:
         logger.warn('{} sum of minor key profile is {} when it is expected to be 1.0'.format(name, minor_sum))
     _kp[name] = kp
     logger.info('New key profile {}: {}'.format(name, kp))
diff --git a/optimizer/key_transitions.py b/optimizer/key_transitions.py
index e0845a9..246069e 100644
--- a/optimizer/key_transitions.py
+++ b/optimizer/key_transitions.py
@@ -107,7 +107,7 @@ _ratios = {
 
 def insert_new(name, kt):
     kt_sum = sum(kt)
-    if 1.0 - abs(kt_sum) > 0.01:
+    if abs(1.0 - kt_sum) > 0.01:
         logger.warn('{} sum is {} when it is expected to be 1.0'.format(name, kt_sum))
     _kt[name] = kt
     logger.info('New key transition {}: {}'.format(name, kt))
-- 
2.43.0


From 7e225be13b37fc899e65c5597b52bf289f540028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 19/28] fix: distributions are handed to justkeydding with all
 their digits

---
 optimizer/key_profiles.py    | 2 +-
 optimizer/key_transitions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizer/key_profiles.py b/optimizer/key_profiles.py
index afee04b..2e27646 100644
--- a/optimizer/key_profiles.py
+++ b/optimizer/key_profiles.py
@@ -171,7 +171,7 @@ def get(name):
 def get_as_string(name):
     kp = get(name)
     if kp:
-        kp_string = ['{:.15f}'.format(p) for p in kp]
+        kp_string = [repr(float(p)) for p in kp]
         kp_string = ' '.join(kp_string)
         return kp_string
     return None
diff --git a/optimizer/key_transitions.py b/optimizer/key_transitions.py
index 246069e..d6dd268 100644
--- a/optimizer/key_transitions.py
+++ b/optimizer/key_transitions.py
@@ -150,7 +150,7 @@ def get_ratio(name):
 def get_as_string(name):
     kt = get(name)
     if kt:
-        kt_string = ['{:.15f}'.format(p) for p in kt]
+        kt_string = [repr(float(p)) for p in kt]
         kt_string = ' '.join(kt_string)
         return kt_string
     return None
-- 
2.43.0


From bc8c1ff6cb4fb3b1449db6284e9e88f31756c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 20/28] fix: evolving a small population neither fails nor
 loops for parents it does not have

---
 optimizer/evolver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optimizer/evolver.py b/optimizer/evolver.py
index e464b46..9bcb655 100644
--- a/optimizer/evolver.py
+++ b/optimizer/evolver.py
@@ -30,6 +30,8 @@ class Evolver:
         new_key_profiles = copy.deepcopy(kps[:retain_length])
 
         # Select random key profiles from the previous generation
+        # There may be fewer of them left than we would like to keep
+        random_retain_length = min(random_retain_length, len(set(kps[retain_length:]) - set(new_key_profiles)))
         random_old = []
         while len(random_old) < random_retain_length:
             kp = random.choice(kps[retain_length:])
@@ -39,6 +41,9 @@ class Evolver:
         new_key_profiles.extend(random_old)
 
         # Crossover parents to fill some of the population
+        if len(set(new_key_profiles)) < 2:
+            # There are no two different parents to mix
+            crossover_length = 0
         children = []
         while len(children) < crossover_length:
             major_parent = random.choice(new_key_profiles)
@@ -101,6 +106,8 @@ class Evolver:
         new_key_transitions = copy.deepcopy(kts[:retain_length])
 
         # Select random key transitions from the previous generation
+        # There may be fewer of them left than we would like to keep
+        random_retain_length = min(random_retain_length, len(set(kts[retain_length:]) - set(new_key_transitions)))
         random_old = []
         while len(random_old) < random_retain_length:
             kt = random.choice(kts[retain_length:])
-- 
2.43.0


From 6a12183d2634fa62a54bf17bae61fe0a24617907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 21/28] fix: reading back mixed_profiles=True of a dataset
 gives True

---
 dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset.py b/dataset.py
index 94ee4ee..2eb6bf1 100644
--- a/dataset.py
+++ b/dataset.py
@@ -32,7 +32,7 @@ class Dataset():
                 kps = [s.strip() for s in kps]
                 kts = kts.split(',')
                 kts = [s.strip() for s in kts]
-                mixed_profiles = mixed_profiles.split('=')[1] == "True"
+                mixed_profiles = mixed_profiles.split('=')[1].strip() == "True"
                 ensemble = {
                     'key_profiles': kps,
                     'key_transitions': kts,
-- 
2.43.0


From 81e2d336e4597d74c63207a722e10a6834fb0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 22/28] fix: a features file without extension is reported as
 an unknown file type

---
 dataset_creator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset_creator.py b/dataset_creator.py
index bc03e53..351030a 100644
--- a/dataset_creator.py
+++ b/dataset_creator.py
@@ -108,7 +108,7 @@ class DatasetCreator():
         # files there and right formats
         for f in os.listdir(self.feature_folder):
             tokens = f.rsplit('.', 1)
-            if tokens[1] not in ['mid', 'csv', 'wav']:
+            if len(tokens) < 2 or tokens[1] not in ['mid', 'csv', 'wav']:
                 self.logger.error('Unknown file type {}. Expecting .wav, .csv, or .mid'.format(f))
                 exit()
             no_extension = tokens[0]
-- 
2.43.0


From da43e5c0a38286a6740273f0d1c1991b67824368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 23/28] fix: shortening names that are short already, or have
 blanks, does not lose files

---
 tools/shorten_names.sh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tools/shorten_names.sh b/tools/shorten_names.sh
index f5c6411..79daa7c 100755
--- a/tools/shorten_names.sh
+++ b/tools/shorten_names.sh
@@ -4,7 +4,7 @@
 
 i=0
 
-for f in $(ls $1/features)
+for f in "$1"/features/*
 do
 	id=$(printf %04d $i)
 	filename=$(basename -- "$f")
@@ -13,12 +13,14 @@ do
 	
 	oldfile="$1/features/$noext.$ext"
 	newfile="$1/features/$id.$ext"
-	cp $oldfile $newfile
 	oldannotation="$1/annotations/$noext.key"
 	newannotation="$1/annotations/$id.key"
-	cp $oldannotation $newannotation
-	rm $oldfile
-	rm $oldannotation
+	# A name that is short already stays as it is
+	if [ "$oldfile" != "$newfile" ]
+	then
+		mv -n "$oldfile" "$newfile"
+		mv -n "$oldannotation" "$newannotation"
+	fi
 	((i++))
 done
 	
-- 
2.43.0


From 03134b77d54d2a527ad2b52ac7c4e85d0b344d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 24/28] fix: recordings whose key was not recognised do not
 train classes that are no keys

---
 model_trainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model_trainer.py b/model_trainer.py
index a216507..d691f40 100644
--- a/model_trainer.py
+++ b/model_trainer.py
@@ -48,6 +48,11 @@ if __name__ == '__main__':
         max_iter=100000
     )
 
+    # Recordings without a recognised key have nothing to teach
+    labelled = fulldataset_y >= 0
+    fulldataset_X = fulldataset_X[labelled]
+    fulldataset_y = fulldataset_y[labelled]
+
     # Feature scaling in all the feature vectors
     fulldataset_X = dataset.feature_scaling(fulldataset_X)
 
-- 
2.43.0


From b63788d2794ceaf2f6d0a0b7330361c90e7b0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 25/28] fix: batch_chromagram.sh analyses files whose names
 have blanks

---
 tools/batch_chromagram.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/batch_chromagram.sh b/tools/batch_chromagram.sh
index 84a781a..7efb0f8 100644
--- a/tools/batch_chromagram.sh
+++ b/tools/batch_chromagram.sh
@@ -2,5 +2,5 @@
 
 find $1 -type f -iname "*.wav" -print0 | while IFS= read -r -d $'\0' filename; do
     echo "${filename::-4}".csv
-    nnls-chroma-1.1/chromaextract $filename > "${filename::-4}".csv
+    nnls-chroma-1.1/chromaextract "$filename" > "${filename::-4}".csv
 done
-- 
2.43.0


From 4a3f2fb0baf001163b75e12dbf3054183bbac3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 26/28] fix: dataset: files of another dataset whose name
 begins the same are no splits

---
 dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataset.py b/dataset.py
index 2eb6bf1..0d94790 100644
--- a/dataset.py
+++ b/dataset.py
@@ -16,8 +16,8 @@ class Dataset():
         for f in os.listdir(self.dataset_dir):
             if f.startswith(self.dataset_name):
                 files.append(f)
-        annotations_re = re.escape(self.dataset_name) + '-?(.*)_annotations.pkl'
-        features_re = re.escape(self.dataset_name) + '-?(.*)_features.pkl'
+        annotations_re = re.escape(self.dataset_name) + r'(?:-(.+))?_annotations\.pkl'
+        features_re = re.escape(self.dataset_name) + r'(?:-(.+))?_features\.pkl'
         ensemble_file = '{}_ensemble.txt'.format(self.dataset_name)
         for f in files:
             # print('Loading {}...'.format(f))
@@ -39,7 +39,7 @@ class Dataset():
                     'mixed_profiles': mixed_profiles
                 }
                 setattr(self, 'ensemble', ensemble)
-            match = re.search(features_re, f, re.IGNORECASE)
+            match = re.fullmatch(features_re, f, re.IGNORECASE)
             if match:
                 split_name = match.group(1)
                 array = np.load(os.path.join(self.dataset_dir, f), allow_pickle=True)
@@ -49,7 +49,7 @@ class Dataset():
                 else:
                     self.X = array
             else:
-                match = re.search(annotations_re, f, re.IGNORECASE)
+                match = re.fullmatch(annotations_re, f, re.IGNORECASE)
                 if match:
                     split_name = match.group(1)
                     array = np.load(os.path.join(self.dataset_dir, f), allow_pickle=True)
-- 
2.43.0


From 135dab9fb2ffc5b284995567910caba003ee12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 27/28] fix: Chordino skips the lines of chord.dict that define
 no chord instead of crashing

---
 nnls-chroma-1.1/chromamethods.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nnls-chroma-1.1/chromamethods.cpp b/nnls-chroma-1.1/chromamethods.cpp
index 89c7058..e725623 100644
--- a/nnls-chroma-1.1/chromamethods.cpp
+++ b/nnls-chroma-1.1/chromamethods.cpp
@@ -342,7 +342,7 @@ static vector<float> staticChordvalues() {
 vector<string> chordDictionary(vector<float> *mchorddict, vector<vector<int> > *m_chordnotes, float boostN, float harte_syntax) {    
     
     typedef tokenizer<char_separator<char> > Tok;
-    char_separator<char> sep(",; ","=");
+    char_separator<char> sep(",; \r","=");
 
     string chordDictBase("chord.dict");
     string chordDictFilename;
@@ -424,12 +424,26 @@ vector<string> chordDictionary(vector<float> *mchorddict, vector<vector<int> > *
                             chordType = "";
                         } else {
                             chordType = tempString;
-                            tok_iter++;                            
+                            if (++tok_iter == tok.end()) break; // a name alone
                         }
                     } else {
-                        tempChordDict.push_back(lexical_cast<float>(*tok_iter));
+                        float value = INFINITY;
+                        try {
+                            value = lexical_cast<float>(tempString);
+                        } catch (bad_lexical_cast &) {
+                        }
+                        if (!std::isfinite(value)) { // no pitch class weight
+                            tempPCVector.clear();
+                            break;
+                        }
+                        tempPCVector.push_back(value);
                     }
                 }                
+                if (tempPCVector.size() != 24) {
+                    cerr << "WARNING: ignoring this line of " << chordDictFilename << ": " << line << endl;
+                    continue;
+                }
+                tempChordDict.insert(tempChordDict.end(), tempPCVector.begin(), tempPCVector.end());
                 tempChordNames.push_back(chordType);
             }
         }
@@ -510,6 +524,7 @@ vector<string> chordDictionary(vector<float> *mchorddict, vector<vector<int> > *
         } else {
             stand = powf(stand,1.0f/exponent) / (1+boostN);
         }
+        if (stand == 0) continue; // nothing to scale
         for (int iST = 0; iST < 24; ++iST) {
             loadedChordDict[24 * iChord + iST] /= stand;            
         }
-- 
2.43.0


From 5af8ee0f071aeff74fd7a4d0ca640c69d3e9b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 28/28] fix: the list of all datasets takes recordings only,
 not every name that ends in one of their letters

The pattern was a set of characters, so the folder 13-napoles2018_symbolic
and files such as x.wav or x.conf were evaluated as recordings.
---
 tools/run_all_evaluations.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/run_all_evaluations.sh b/tools/run_all_evaluations.sh
index 13d82c6..d563055 100644
--- a/tools/run_all_evaluations.sh
+++ b/tools/run_all_evaluations.sh
@@ -52,6 +52,6 @@ find . | grep "13-napoles2018_symbolic.*\.mid" > midi_dataset.txt
 python3 ga.py
 mv logs logs_13-napoles2018_symbolic
 
-find . | grep "^\.\/[0-9][0-9]-.*[\.mid|\.csv]$" > midi_dataset.txt
+find . | grep "^\.\/[0-9][0-9]-.*\.\(mid\|csv\)$" > midi_dataset.txt
 python3 ga.py
 mv logs logs-14-alldatasets
\ No newline at end of file
-- 
2.43.0

