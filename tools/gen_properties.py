#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay editable)."""
import json, os
E="PTN_Engine/"
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith("Examples") else E+f for f in files],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=hook))
L=[]
L.append(P("C01","A transition fires exactly when the Petri-net firing rule allows it",
 "A transition fires if and only if every place on an input arc holds at least the weight of that arc, every place on an inhibitor arc is empty, and every additional condition evaluates to true. The weight of an inhibitor arc plays no role, and a transition without input arcs is always token-enabled.",
 ["inputs","programs"],"All 64-bit markings, all 64-bit arc weights, all condition outcomes and all net shapes up to the stated number of places and arcs.",
 "The tests fire a handful of fixed nets with token counts and weights of 0 to 4; they cannot cover the 2^64 markings and weights, nor every mix of input, inhibitor and condition guards.",
 ["Transition.cpp","TransitionsManager.cpp","PTN_EngineImp.cpp"],
 [("isActive / isEnabledInternal","Transition.cpp"),("checkActivationPlaces","Transition.cpp"),("checkInhibitorPlaces","Transition.cpp"),("checkAdditionalConditions","Transition.cpp")],
 [("m_numberOfTokens","marking of a place","Place.h"),("m_activationArcs / m_inhibitorArcs","guards of a transition","Transition.h")],
 ["getNumberOfTokens after execute","actions run"]))
L.append(P("C02","A firing moves exactly the tokens the arcs say and nothing else",
 "When a transition fires, each place loses exactly the weight of its input arc and gains exactly the weight of its output arc, and every other place keeps its token count. Inhibitor arcs never consume or produce tokens, and a place on both an input and an output arc ends with its old count minus one weight plus the other.",
 ["inputs","programs"],"All 64-bit markings and weights for which the firing is possible, all net shapes up to the stated bounds.",
 "Tests check small concrete token counts on fixed nets; the effect must hold for every weight and marking and for every combination of arcs on one place.",
 ["Transition.cpp","Place.cpp"],
 [("performTransit","Transition.cpp"),("exitPlace / enterPlace","Place.cpp"),("decreaseNumberOfTokens / increaseNumberOfTokens","Place.cpp")],
 [("m_numberOfTokens","marking of a place","Place.h")],["getNumberOfTokens of every place"]))
L.append(P("C03","Token counts never wrap and a failing firing changes nothing",
 "No operation ever makes a token count wrap around: when a firing would exceed the largest representable count it is reported as an overflow error. A firing that fails this way leaves every place with the count it had before.",
 ["inputs","programs"],"All 64-bit markings and weights, including those next to the maximum.",
 "Overflow needs counts around 2^64; the tests that touch it use a place on its own and are not among the stable ones.",
 ["Place.cpp","Transition.cpp"],
 [("increaseNumberOfTokens","Place.cpp"),("performTransit","Transition.cpp")],
 [("m_numberOfTokens","marking of a place","Place.h")],["exception type of execute / incrementInputPlace","getNumberOfTokens"]))
L.append(P("C04","A synchronous run only returns when no transition can fire any more",
 "In single-thread mode, running the net returns only when no transition is able to fire in the resulting marking, and the resulting marking is reachable from the initial one by firing transitions one after the other. Running again immediately without new input changes nothing.",
 ["inputs","programs","histories"],"All markings and weights and all random choices of the engine within the stated number of transitions and firings.",
 "Tests run a few fixed nets whose run ends after a known number of steps; whether the loop may end too early depends on marking, structure and random order.",
 ["EventLoop.cpp","PTN_EngineImp.cpp","TransitionsManager.cpp"],
 [("EventLoop::start loop","EventLoop.cpp"),("executeInt","PTN_EngineImp.cpp")],(),["getNumberOfTokens after execute"]))
L.append(P("C05","Conflicts are resolved freely, fairly possible, and never over-consume",
 "When several transitions compete for the same tokens, each of them is able to win, and one that has lost its tokens to another does not fire. The outcome of a run is always one that a sequence of individually allowed firings can produce.",
 ["inputs","programs","histories"],"All markings and weights, all outcomes of the engine's random order, all conflict shapes within bounds.",
 "The existing test runs a two-way conflict many times and counts; it cannot show that no order of any conflict ever consumes tokens that are gone.",
 ["TransitionsManager.cpp","PTN_EngineImp.cpp","Transition.cpp"],
 [("collectEnabledTransitionsRandomly","TransitionsManager.cpp"),("re-check in Transition::execute","Transition.cpp")],(),["getNumberOfTokens after execute"]))
L.append(P("C06","Entry and exit actions run exactly once per token movement, in order",
 "For each firing, the exit action of every input place and the entry action of every output place run exactly once each, whatever the arc weights, and all exit actions are issued before any entry action. Places that take no part in the firing run no action, and adding a token from outside runs the entry action exactly once.",
 ["inputs","programs"],"All weights and markings, all subsets of places with entry and exit actions, all net shapes within bounds.",
 "Tests check one or two places with unit weights; how often and in which order actions run must not depend on weights, shape or marking.",
 ["Place.cpp","Transition.cpp","Executor/SingleThreadExecutor.cpp"],
 [("enterPlace / exitPlace","Place.cpp"),("executeAction","Executor/SingleThreadExecutor.cpp")],(),["log of user actions"]))
L.append(P("C07","External input adds exactly one token, only to input places",
 "Adding external input to an existing input place adds exactly one token to that place and to nothing else. For an unknown place, a place that is not an input place, or a place already at the maximum count, it fails with an error and changes nothing.",
 ["inputs","programs"],"All markings, all place names over a small alphabet, all subsets of input places.",
 "Tests use fixed names and small counts; they cannot quantify over names and counts up to the 64-bit maximum.",
 ["PlacesManager.cpp","Place.cpp","PTN_EngineImp.cpp"],
 [("incrementInputPlace","PlacesManager.cpp"),("enterPlace","Place.cpp")],(),["getNumberOfTokens","exception"]))
L.append(P("C08","Invalid net definitions are rejected and leave the net unchanged",
 "Creating a place or transition with an empty or already used name, an unknown place, an unknown function name, a repeated place on one kind of arc, or a zero weight fails with an error. A rejected request leaves places, transitions, arcs and token counts exactly as they were; every other request is accepted and does what it says.",
 ["inputs","programs"],"All names over a small alphabet up to the stated length, all weights, all arc lists up to the stated size.",
 "Tests try a fixed list of wrong requests; the rejection rule must hold for every name, weight and combination, and must be exact in both directions.",
 ["PTN_EngineImp.cpp","Transition.cpp","ManagerBase.h","ManagedContainer.h","PlacesManager.cpp","Utilities/DetectRepeated.h"],
 [("createTransition / createPlace","PTN_EngineImp.cpp"),("insert","ManagerBase.h"),("detectRepeated","Utilities/DetectRepeated.h"),("validateWeights","Transition.cpp")],(),
 ["exception","getPlacesProperties","getTransitionsProperties"]))
L.append(P("C09","Adding and removing arcs does exactly that, or fails with no effect",
 "Adding an arc makes exactly that arc part of the transition, removing one takes exactly that arc away, and all other arcs stay as they are. A request that cannot be honoured (arc already there, arc not there, unknown place or transition, zero weight) fails with an error and has no effect at all, also for arcs that stand for both directions.",
 ["inputs","programs","histories"],"All sequences of add and remove requests up to the stated length, all arc kinds and weights.",
 "Tests add or remove single arcs; partial effects appear only for particular combinations of existing arcs and request kinds.",
 ["PTN_EngineImp.cpp","Transition.cpp"],
 [("addArc / removeArc","Transition.cpp"),("addArc / removeArc","PTN_EngineImp.cpp")],
 [("m_activationArcs, m_destinationArcs, m_inhibitorArcs","arcs of a transition","Transition.h")],["getTransitionsProperties","behaviour of execute"]))
L.append(P("C10","A net edited arc by arc behaves like one declared at once",
 "Two nets with the same places, transitions and arcs behave the same, whether the arcs were given when a transition was created or added (or added and removed) afterwards. In particular, after a failed edit the net still behaves as before it.",
 ["inputs","programs","histories"],"All markings, weights and edit sequences within bounds.",
 "No test compares the firing behaviour of edited and declared nets.",
 ["PTN_EngineImp.cpp","Transition.cpp"],
 [("addArc / removeArc","Transition.cpp")],(),["getNumberOfTokens after execute"]))
L.append(P("C11","What the net reports about itself is what was defined",
 "The reported places and transitions are exactly those defined, each once, with the names, current token counts, input flags, function names, arcs, weights and options they were given. Reading the description or the marking never changes the net.",
 ["inputs","programs"],"All markings, weights, flags and net shapes within bounds.",
 "Tests compare one or two fixed nets.",
 ["PlacesManager.cpp","TransitionsManager.cpp","Place.cpp","Transition.cpp"],
 [("placeProperties","Place.cpp"),("getTransitionProperties","Transition.cpp")],(),["getPlacesProperties","getTransitionsProperties"]))
L.append(P("C12","Export followed by import reproduces the net",
 "Exporting a net whose functions are registered by name to XML and importing the file into a fresh engine with the same functions gives a net with the same places, token counts, input flags, function bindings, transitions, arcs, weights and options. This holds for every token count and weight, and for every further export made with the same exporter.",
 ["inputs","programs","histories"],"All 64-bit token counts and weights, all arc kinds, flags and modes, within the stated net size.",
 "The tests contain no case for import and export at all; large counts only fail at particular magnitudes.",
 ["ImportExport/XML/src/XML/XML_FileExporter.cpp","ImportExport/XML/src/XML/XML_FileImporter.cpp","ImportExport/IFileExporter.cpp","ImportExport/IFileImporter.cpp","ImportExport/ActionsThreadOptionConversions.cpp"],
 [("exportPlace / exportTransition","ImportExport/XML/src/XML/XML_FileExporter.cpp"),("importPlaces / importTransitions / importArcs","ImportExport/XML/src/XML/XML_FileImporter.cpp")],(),
 ["getPlacesProperties / getTransitionsProperties of the imported net"]))
L.append(P("C13","Import rejects what it cannot read instead of guessing",
 "Importing a file with a token count or weight that is not an unsigned number in range, an unknown arc kind, an unknown thread mode, or a flag that is neither true nor false fails with an error; a well-formed value is read exactly, and an absent or empty token count or flag means the default (zero, false). The thread mode names convert to modes and back without loss, and no other text is a mode name.",
 ["inputs"],"All attribute texts up to the stated length over all characters.",
 "No test feeds the importer; the space of texts is unbounded.",
 ["ImportExport/XML/src/XML/XML_FileImporter.cpp","ImportExport/ActionsThreadOptionConversions.cpp"],
 [("getNodeValue","ImportExport/XML/src/XML/XML_FileImporter.cpp"),("toACTIONS_THREAD_OPTION / toString","ImportExport/ActionsThreadOptionConversions.cpp")],(),["exception","imported properties"]))
L.append(P("C14","The run state follows start and stop, and guards structural changes",
 "An engine reports to be running from a successful asynchronous start until it is stopped, and never otherwise; starting a running engine fails, stopping a stopped one is harmless, and a stopped engine can be started again. While it runs, clearing the net, adding or removing arcs and changing the thread mode fail with an error and have no effect.",
 ["histories","schedules"],"All sequences of start, stop, and edit requests up to the stated length, all modes, all thread schedules within the preemption bound.",
 "Tests follow one or two fixed sequences with sleeps in between.",
 ["EventLoop.cpp","PTN_EngineImp.cpp","PTN_EngineImpProxy.cpp"],
 [("start / stop / isRunning","EventLoop.cpp"),("isEventLoopRunning guards","PTN_EngineImp.cpp")],
 [("m_eventLoopThreadRunning","run state","EventLoop.h")],["isEventLoopRunning","exceptions"]))
L.append(P("C15","Stopping always ends, and nothing fires afterwards",
 "A request to stop, or destroying the engine, always returns, whatever the loop is doing at that moment. Once it has returned no transition fires, no token moves until the net is run again, and tokens added meanwhile stay where they were put.",
 ["schedules","inputs"],"All thread schedules within the preemption bound, all modes and small nets.",
 "Tests stop after fixed sleeps; a lost stop or a late firing needs a particular interleaving.",
 ["EventLoop.cpp","PTN_EngineImp.cpp"],
 [("stop / run handshake","EventLoop.cpp")],
 [("m_barrier","hand-over at stop","EventLoop.h")],["getNumberOfTokens after stop","termination"]))
L.append(P("C16","The net can be restarted at once, any number of times",
 "Starting the engine again right after stopping it works, without losing tokens or input and without touching memory or threads of the previous run. Every run is a complete one.",
 ["schedules","histories"],"All schedules within the preemption bound of start/stop/start sequences.",
 "Whether the old loop is still winding down when the new one starts is a race that tests do not control.",
 ["EventLoop.cpp"],[("start / stop / run","EventLoop.cpp")],
 [("m_barrier, m_eventLoopThread","state of the previous run","EventLoop.h")],["getNumberOfTokens","memory safety"]))
L.append(P("C17","No input is lost: every accepted token is eventually consumed if it can be",
 "With the engine running, an input that enables a transition is eventually followed by that firing, without further input, and without depending on when the input arrives relative to the loop's work or rest. The number of firings matches the number of accepted inputs.",
 ["schedules","inputs"],"All schedules within the preemption bound, inputs from one or two threads before, during and after start.",
 "Missed wake-ups and lost increments need particular interleavings; the tests wait for generous times after single inputs.",
 ["EventLoop.cpp","PTN_EngineImp.cpp","Place.cpp","PlacesManager.cpp"],
 [("notifyNewEvent / wait_for","EventLoop.cpp"),("m_newInputReceived","PTN_EngineImp.cpp")],(),["getNumberOfTokens once idle"]))
L.append(P("C18","Queued actions run in order, once each, one at a time",
 "In job-queue mode every action issued is run exactly once, in the order of issue, never two at the same time and never by the caller's own thread. No action is lost however issuing and finishing of earlier actions overlap.",
 ["schedules"],"All schedules within the preemption bound of issuing threads and the worker.",
 "A lost job needs the issuer to add it between the worker's last look and its end; tests cannot steer that.",
 ["JobQueue/JobQueue.cpp","Executor/JobQueueExecutor.cpp"],
 [("addJob / launch / run","JobQueue/JobQueue.cpp")],
 [("m_isJobQueueRunning","worker state","JobQueue/JobQueue.h")],["log of jobs"]))
L.append(P("C19","A paused job queue keeps its jobs and can be resumed any number of times",
 "After a job queue is paused no job starts, and jobs added meanwhile or not yet started are kept and run after it is resumed, in order. Pausing and resuming any number of times, with or without work in between, works and always returns.",
 ["schedules","histories"],"All sequences of add, pause and resume up to the stated length and all schedules within the preemption bound.",
 "Tests pause and resume once, with work in the queue.",
 ["JobQueue/JobQueue.cpp"],[("activate / deactivate","JobQueue/JobQueue.cpp")],(),["log of jobs","termination"]))
L.append(P("C20","The engine can be used from several threads at once",
 "Calls made from several threads at the same time behave as if made one after the other: no data race, no deadlock, no lost update, and every call returns. This holds for input, queries, descriptions, start and stop alike, also while the net runs.",
 ["schedules","histories"],"All pairs of public operations from two threads, with and without a running loop, all schedules within the preemption bound.",
 "The tests are mostly single threaded with sleeps; races need particular interleavings.",
 ["PTN_EngineImpProxy.cpp","PTN_EngineImp.cpp","PlacesManager.cpp","Place.cpp","Transition.cpp","EventLoop.cpp"],
 [("m_mutex","PTN_EngineImpProxy.h"),("per-object mutexes","Place.h, Transition.h, PlacesManager.h, TransitionsManager.h")],(),["happens-before monitor","results"]))
L.append(P("C21","A failing user function does not break the engine",
 "If an action or condition throws, the error reaches the caller of a synchronous run and the engine stays usable: later input, runs, and transitions that wait for actions to finish work as if the failing function had ended normally or the firing had not been attempted. Nothing stays locked, blocked or counted as being in execution.",
 ["fault_sequences","programs"],"All positions at which a user function fails, all subsets of failing functions in the bounded nets.",
 "No test makes a user function fail.",
 ["Transition.cpp","Place.cpp","Executor/SingleThreadExecutor.cpp","Executor/JobQueueExecutor.cpp"],
 [("executeAction","Executor/SingleThreadExecutor.cpp"),("blockStartingOnEnterActions","Transition.cpp")],
 [("m_onEnterActionsInExecution","running entry actions","Place.h"),("m_blockStartingOnEnterActions","entry block","Place.h")],["later runs"]))
L.append(P("C22","A transition that waits for actions fires only when they are done, and then does",
 "A transition that requires no actions in execution never fires while an entry action of one of its input places is being executed or waiting to be executed, and fires once they have finished if it is enabled. The requirement never makes the engine hang, also when a place is both input and output of the transition.",
 ["schedules","inputs","programs"],"All schedules within the preemption bound, all modes, net shapes with self-loops and several input places.",
 "The tests exercise one shape with fixed sleeps.",
 ["Transition.cpp","Place.cpp","Executor/JobQueueExecutor.cpp","Executor/DetachedExecutor.cpp"],
 [("noActionsInExecution","Transition.cpp"),("blockStartingOnEnterActions","Transition.cpp"),("enterPlace wait","Place.cpp")],
 [("m_onEnterActionsInExecution","running entry actions","Place.h")],["log of actions and firings"]))
L.append(P("C23","Pending actions never touch freed objects",
 "Clearing the net, changing the thread mode or destroying the engine while actions are queued or running never makes them use memory that is gone, and never loses track of how many are in execution. Each issued action either runs to its end or is dropped before it starts.",
 ["schedules","histories"],"All schedules within the preemption bound, job-queue mode with pending and running actions.",
 "Use after free needs the action to be pending at the moment of the clear; tests let all actions finish.",
 ["PTN_EngineImp.cpp","Executor/JobQueueExecutor.cpp","Place.h","PTN_EngineImp.h"],
 [("job captures","Executor/JobQueueExecutor.cpp"),("member order","PTN_EngineImp.h")],(),["object-lifetime monitor"]))
L.append(P("C24","A cleared net is empty and can be rebuilt from scratch",
 "Clearing removes all places, transitions and arcs: nothing is reported, nothing fires, and no old name resolves. The same names can then be defined anew and the new net behaves exactly as in a fresh engine; registered functions stay registered.",
 ["inputs","histories"],"All markings and weights of the old and new net, within bounds.",
 "Tests only check that clearing a running net fails or that one net can be cleared.",
 ["PTN_EngineImp.cpp","PlacesManager.cpp","TransitionsManager.cpp"],
 [("clearNet","PTN_EngineImp.cpp"),("clear","PlacesManager.cpp")],(),["getPlacesProperties","execute"]))
L.append(P("C25","The thread mode decides only where actions run",
 "Changing the thread mode of a stopped engine keeps net and marking, and the reported mode is the one set last. In every mode a run ends in a marking allowed by the firing rule with every action run exactly once: the actions of firings run on the caller's thread in single-thread mode, on the loop's thread in event-loop mode, and on yet another thread in the remaining modes.",
 ["schedules","configurations","inputs"],"All ordered pairs of modes, all small nets and weights, all schedules within the preemption bound.",
 "Tests check each mode once with sleeps.",
 ["PTN_EngineImp.cpp","Executor/ActionsExecutorFactory.cpp","Executor/DetachedExecutor.cpp","PlacesManager.cpp"],
 [("setActionsThreadOption","PTN_EngineImp.cpp"),("createExecutor","Executor/ActionsExecutorFactory.cpp")],(),["thread of each action","getActionsThreadOption"]))
L.append(P("C26","Names always resolve to the function registered under them",
 "A place or transition that refers to functions by name uses exactly the functions registered under those names (also when a function is given beside the name), entry and exit not mixed up and conditions in the given order. Registering an empty or used name fails and keeps the earlier function.",
 ["inputs","programs"],"All registered names over a small alphabet and all assignments of names to roles within bounds.",
 "Tests register one or two fixed names.",
 ["ManagedContainer.h","PTN_EngineImp.cpp"],
 [("addItem / getItem / getItems","ManagedContainer.h"),("createPlace / createTransition","PTN_EngineImp.cpp")],(),["log of user functions"]))
L.append(P("C27","The printed state lists every place once with its current count",
 "Printing the state writes every place exactly once together with its current number of tokens, and nothing about other places. A logged run prints the state as it was before each step, and logging never changes what the net does.",
 ["inputs","programs"],"All markings within bounds.",
 "Tests do not look at the output.",
 ["PlacesManager.cpp","PTN_EngineImp.cpp"],
 [("printState","PlacesManager.cpp"),("executeInt log","PTN_EngineImp.cpp")],(),["text written to the stream"]))
L.append(P("C28","The factorial example computes the factorial",
 "For every argument, the example prints the factorial of the argument (in 64-bit arithmetic) next to it, whatever was computed before with the same net. It always ends successfully.",
 ["inputs"],"All arguments up to the stated bound in any of the first three computations, all random orders for small arguments.",
 "Examples are not tested.",
 ["Examples/Factorial/main.cpp","Transition.cpp","EventLoop.cpp"],
 [("net definition","Examples/Factorial/main.cpp")],(),["result and marking"]))
L.append(P("C29","Requested sleep times are kept and always valid to set",
 "The reported rest time of the loop is the one set last (initially 100 ms), for every value, and setting or reading it always returns, also while the loop runs or rests. It influences only how long the loop rests, never which transitions fire.",
 ["inputs","schedules"],"All 63-bit durations; all schedules within the preemption bound with a resting loop.",
 "Tests set one fixed value on a stopped engine.",
 ["EventLoop.cpp","PTN_EngineImp.cpp"],
 [("setSleepDuration / getSleepDuration","EventLoop.cpp")],
 [("m_sleepDuration","rest time","EventLoop.h")],["getEventLoopSleepDuration","termination"]))
L.append(P("C30","The elevator example never leaves the building and accepts only valid floors",
 "The elevator controller accepts exactly the floors that exist for each kind of request, and the cabin stays between the lowest and the highest floor for every sequence of accepted requests made one at a time, each when the previous one has been taken in. Every requested floor is eventually visited when the doors get closed again and again.",
 ["inputs","histories"],"All integers as floors; all sequences of requests and door operations up to the stated length.",
 "Examples are not tested.",
 ["Examples/Elevator/Controller/ElevatorController.cpp","Examples/Elevator/Controller/ElevatorPetriNet.cpp"],
 [("callElevatorUp / callElevatorDown / setDestinationFloor","Examples/Elevator/Controller/ElevatorController.cpp")],(),["current floor","destination lists"]))
L.append(P("C31","The phone menu example shows the screen the keys lead to",
 "For every sequence of keys pressed one at a time (each when the previous one has been taken in) and every non-empty list of messages, the phone menu example is on exactly one screen, the one the keys lead to, and prints it: A switches between call log and messages or to the next message (after the last one the first), B opens, C goes back, and a key without use on a screen waits until it has one. Other text is reported as invalid and changes nothing, and q ends the menu; the menu read from the example's XML file behaves the same.",
 ["inputs","histories"],"All key sequences up to the stated length, in either case, for one to three messages, both for the net built by the program and for the net in the XML file.",
 "Examples are not tested.",
 ["Examples/PhoneMenu/Controller/Controller.cpp","Examples/PhoneMenu/Controller/MenuStateMachine.cpp","Examples/PhoneMenu/main.cpp"],
 [("setControllerFunctions (the net)","Examples/PhoneMenu/Controller/MenuStateMachine.cpp"),("the net as a file","Examples/PhoneMenu/assets/PhoneMenu.xml"),("programLoop / runLoop","Examples/PhoneMenu/main.cpp")],(),["printed screens","marking","selected message"]))
L.append(P("C32","The elevator example's dialogues survive any text",
 "Whatever word is typed when the elevator example asks for a floor, the dialogue does not fail: the number of an existing floor is accepted, b leaves the dialogue, and any other number or text that is no number is refused and asked for again. The main menu leads to the dialogues and ends the program exactly with q, whatever else is typed before.",
 ["inputs"],"All words of printable characters up to the stated length and a list of numbers around and beyond the limits of int.",
 "Examples are not tested.",
 ["Examples/Elevator/main.cpp","Examples/Elevator/Controller/ElevatorController.cpp"],
 [("callElevatorUpMenu / callElevatorDownMenu / setDestinationMenu","Examples/Elevator/main.cpp")],(),["words read","errors"]))
L.append(P("C33","A thread the system refuses to create is reported or made up for",
 "When the system refuses to create a thread for the event loop, starting fails with an error and the engine is as before: not running, no token moved, its net and mode can be changed, stopping and destroying it return, and it can be started later. A job whose worker thread is refused is kept and run, in order and once, when a worker can be started for a later job; an entry action whose own thread is refused for an input is reported to the giver of the input and is not counted as being in execution.",
 ["fault_sequences","schedules"],"Every choice of which thread creations fail (within the stated numbers), and all schedules within the preemption bound.",
 "The tests never run out of threads.",
 ["EventLoop.cpp","JobQueue/JobQueue.cpp","Executor/DetachedExecutor.cpp"],
 [("start","EventLoop.cpp"),("launch","JobQueue/JobQueue.cpp"),("executeAction","Executor/DetachedExecutor.cpp")],
 [("m_eventLoopThreadRunning","run state","EventLoop.h"),("m_isJobQueueRunning","a worker runs","JobQueue/JobQueue.h")],["isEventLoopRunning","errors","jobs run","termination"]))
L.append(P("C34","A call that runs out of memory has no partial effect",
 "When memory cannot be allocated during a call that defines, edits, clears, describes, prints or feeds the net, changes its mode or starts it, the call fails with an error and the net and run state are as before the call (or as after it), never in between. A synchronous run that fails this way loses no token, nothing stays locked, and the engine can be used on and destroyed.",
 ["fault_sequences","programs"],"Every single allocation made by each kind of call failing.",
 "The tests never run out of memory.",
 ["PTN_EngineImp.cpp","PTN_EngineImpProxy.cpp","Transition.cpp","Place.cpp","ManagedContainer.h","EventLoop.cpp"],
 [("addArc","Transition.cpp"),("createTransition / createPlace / setActionsThreadOption","PTN_EngineImp.cpp"),("insert / addItem","ManagedContainer.h"),("start","EventLoop.cpp")],
 [],["getPlacesProperties / getTransitionsProperties","isEventLoopRunning","errors"]))
L.append(P("C35","Engines in one program are independent of each other",
 "What is done to one engine - defining, editing, clearing, feeding, running, stopping or destroying it - never changes the net, settings, run state or registered functions of another engine, and calls no function given to another. Engines can be used from different threads without any synchronisation between them, and an action or job of one engine never holds up the actions or transitions of another.",
 ["programs","inputs","schedules"],"Every short sequence of calls on one engine beside another of the same description, all symbolic token counts, and all schedules within the preemption bound for two running engines and for two threads with an engine each.",
 "Each test uses one engine at a time; state shared by accident shows only when two of them are alive.",
 ["PTN_EngineImp.cpp","EventLoop.cpp","JobQueue/JobQueue.cpp","ManagerBase.h","Transition.cpp","Place.cpp"],
 [("PTN_EngineImp members","PTN_EngineImp.h"),("m_items","ManagerBase.h"),("m_jobQueue","JobQueue/JobQueue.h")],
 [],["getPlacesProperties / getTransitionsProperties","isEventLoopRunning","actions run"]))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in L:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(L))
