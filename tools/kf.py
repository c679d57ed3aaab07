import json,subprocess
log=subprocess.check_output("git -C /repo log --reverse --format='%h %s' f81371b..HEAD",shell=True,text=True).splitlines()
T={
"3ad1d2d":("C02","Update subscribers of a table were sent the previous table after a column was set"),
"e1c82eb":("C02","a subscription to a path inside a mapping field got null instead of its value"),
"5df17c7":("C04","a list put to a number attribute, or a single value to an array attribute, was stored as given"),
"dfc0877":("C03","a table set twice in one group: Update subscribers were left with the first table"),
"fa20191":("C08","a run paused and seeked back just as the last step completed ended Finished with steps missing"),
"8e86c31":("C08","completedSteps showed steps the slowest part had not reached after a seek"),
"2885489":("C06","two configures: the one overtaken while validating went on to configure an Armed block"),
"d4f9602":("C09","abort or pause between two hooks let the next hook start"),
"8afca7b":("C09","abort during the reset phase of a configure from Finished was accepted but configure carried on"),
"6de4963":("C09","abort or disable while pause was waiting was overwritten by pause's own state change"),
"5bcd924":("C09","disable during configure, run or reset ended up in Fault or Ready"),
"86dcaeb":("C05","fields added while a block is Disabled stayed writeable"),
"fc63019":("C12","a when_matches that timed out or was stopped stayed subscribed"),
"7b23e8b":("C12","a wait hung, or hid an error, if a subscription callback it serviced waited too"),
"1bd1a2d":("C12","waiting for the same future twice in one call hung"),
"dcca518":("C24","validate with several frames per step and no duration: detectors' duration was compared per frame with per step"),
"55861ce":("C25","a spawned function returning a numpy array left whoever waited for it with an ambiguous truth error"),
"003cb53":("C25","only the first of several waiting for the same spawned function was told it had finished"),
"da234f1":("C25","blocks were published before they had been started"),
"927013a":("C10","changing the length of a child's array setting raised an error, and designs with arrays of another length could not be loaded"),
"3d4bf95":("C10","a setting modified and then saved was reported as modified again at the next change, and stayed so"),
"5234710":("C10","a setting that was removed and came back was never reported as modified"),
"50081f4":("C10","saving a design with a field exported under two names lost one of them"),
"51a23d8":("C11","an exported method with parameters could not be called, and returned nothing"),
"dd5a423":("C11","an exported table did not follow a change of some of its columns, or of a column's choices"),
"728ff92":("C11","exporting under the name of one of the block's own fields replaced and then lost it"),
"63a1936":("C11","changing the exports of a child failed when its parent exported one of them"),
"d2d9f89":("C11","calling a child's method while its parent was changing exports hung both"),
"fa17821":("C14","a uint64 above 2^63 made the whole block unavailable over PVA"),
"ee91521":("C14","a method called through a PVA proxy gave a structure instead of its result"),
"ce9fc75":("C14","a change of the type of a field stopped PVA clients being told anything more"),
"9711336":("C14","after disable and reset the PVA server served nothing"),
"c8e603a":("C15","REST clients were not told why their request failed"),
"c8c39f3":("C15","websocket clients with an IPv6 address were cut off when the subnet was validated"),
"a8d5229":("C15","a websocket client could not reuse the id of a subscription that had ended or failed"),
"cbbc576":("C15","websocket clients could be sent changes in a different order to that they were made in"),
"5d6ee17":("C16","a proxy did not follow fields added to or removed from the remote block"),
"24e75d8":("C16","changes the remote made together were seen one by one at the proxy"),
"21825b4":("C16","a put or call through a proxy hung when the connection was lost or the value could not be encoded"),
"6d327b4":("C16","proxies did not show a lost connection, and stayed as they were when it was restored"),
"516b824":("C17","a YAML parameter called creator or locals, or with an infinite default, could not be loaded"),
"f1244f2":("C18","a reply with a non-ASCII character split between two packets stopped all communication with the PandA"),
"6507b15":("C18","after a message that can't be encoded every later request got the reply to the one before it"),
"7bce656":("C19","fields of PandA tables that do not fill their type were truncated or lost their sign"),
"63b98c5":("C19","PandA table rows whose last field is bit 0 of a word were written one word short"),
"522c3de":("C19","a bits table with an unknown row failed when capture changed"),
"9d712a3":("C19","after the connection to PandA was lost, reset did not reconnect"),
"96d4c92":("C19","a PandA that was not there at start had no blocks or fields after a reset"),
"b2c7352":("C19","bit and position tables were left showing old settings if they changed during a put"),
"ea8287e":("C20","4096 equal points (or a multiple) in a row: the sequencer table had a row that repeats forever"),
"924df09":("C20","the first turnaround after a batch of points used the last row of an earlier batch: wrong blind time"),
"d397ee1":("C20","the blind time of a turnaround used the delay after the next point, not the one before the turnaround"),
"748da2a":("C21","turnarounds between points of changing velocity left at the entry and arrived at the exit velocity"),
"ba744df":("C21","sparse trajectories (row gated or no triggers) cut the corners of joined points whose two halves have different velocities"),
"5f1cf06":("C21","turnarounds of axes with different velocity settle times failed or did not end together"),
"0e9d286":("C21","the duration guessed for a scan with an axis moving in the negative direction was too short for it"),
"3fb82ad":("C21","with rows longer than what is sent at once, the next part of a sparse trajectory was sent after the last had been used up"),
"b12d83d":("C21","a turnaround with a stage of no length sent infinite positions to the motors"),
"664c85c":("C21","a pause while points were being appended mixed them with those of the seek, and the scan then never ended"),
"504a42d":("C20","a sequencer table that had to be split after a blind row of no length ended with a row of 34 s"),
"c9f989f":("C20","position compare was no longer blind while the axis was still going back past the start of the next row"),
"e7a0884":("C20","points or turnarounds of over 68 s were shortened (modulo 2^32 ticks) without an error"),
"cf5b406":("C20","the blind time ignored axes the PandA does not see, so rows were triggered while slower ones were still turning round"),
"63453d3":("C11","a block with a colon in its mri could not be a child of a manager: its ports were not recognised"),
"325af2b":("C22","the path prefix was also replaced in the middle of paths given to detectors on Windows"),
"df8a687":("C22","the file of demand positions was written to the Windows path if the writer is on Windows"),
"a4ddcb4":("C22","the exposure asked for was forgotten when the detector was set up for the next part of the scan"),
"9109209":("C22","breakpoints were not multiplied up for detectors with several frames per step"),
"fcfbb5b":("C22","seeking took detectors with several frames per step to the wrong frame"),
"400ce95":("C22","pausing while a detector was finishing its part of the run put the scan in Fault"),
"b44ab7d":("C26","waveform tables kept the worst severity they had ever had, and did not show disconnects"),
"a5f168d":("C26","waveform tables stopped updating when the number of points changed (columns arrive one by one)"),
"d5504f5":("C26","blocks with optional PVs (throw=False) that were not there went into Fault if they take display limits"),
"9993308":("C26","a choice stopped updating after its PV had a value without a name"),
"2523757":("C26","actions hidden because their PVs were not there stayed hidden once they were"),
"3dcad84":("C26","motors assigned to no CS failed to connect unless the name of that choice is empty"),
"2679855":("C26","taking a motor out of its CS left an invalid alarm"),
"c7292d2":("C26","an IOC that had stopped was shown as running again when procServ's status changed"),
"a2e065f":("C26","procServ was still said to be there after it had gone"),
"959d969":("C27","configuring Odin or Xspress3 writers failed unless the scan was a whole number of blocks for every file"),
"8a5839c":("C27","the dataset table had a raw dataset and ids of one Odin file more than there are"),
"5aaac6b":("C27","the links to the ids in the raw Odin files did not use the configured name, so led nowhere"),
"f4f7b52":("C27","completed steps of an Xspress3 with several writers ran that many times too fast, past the end of the scan"),
"cc5042c":("C28","aborting the scan runner left the scans still to come to be run, and the runner Finished"),
"8cfa34e":("C29","after a breakpoint or a pause the beam selector went on from the wrong point, on the wrong side, and it reported twice the steps done"),
"140af2b":("C18","requests outstanding when the connection was lost waited for their timeout"),
"b863dee":("C30","pausing a demo scan left the move to the end of the point going, which moved the axis on from the start of the point that the scan was wound back to"),
"652840d":("C30","steps of a scan were counted as complete before a detector had given its first update, so that pausing then skipped frames of the detector"),
"9e4e2b2":("C31","if a raw motor is scanned itself, the datasets to be calculated were linked as the inputs of the calculation, and not its encoder's"),
"4035141":("C27","steps of a scan with an Odin or Xspress3 writer were counted as complete before the writer had given its first update"),
"7e1bed8":("C32","an item that a view does not have was given as a KeyError, not raised"),
"5b8c918":("C32","arguments too many for a method were left out, and the method run with the others"),
"5a6f0c0":("C19","a label that the PandA did not accept was shown all the same"),
"364934d":("C22","steps of a detector were counted as complete before its file writer had given its first update, so that a scan paused then was resumed after frames that were not in the file"),
"a3e75d4":("C15","a web server that had been disabled and reset went on serving when it was disabled again"),
"85330d5":("C22","an Xmap that is armed once for several runs was set up for the pixels of the first only"),
"ce56749":("C31","a raw motor whose encoder is the first position of the PandA was refused as not captured"),
}
import sys
extra=json.load(open("/tmp/kf_extra.json")) if len(sys.argv)>1 else {}
T.update({k:tuple(v) for k,v in extra.items()})
f=[]
for l in log:
    h=l.split()[0]
    p,w=T[h]
    f.append(dict(property=p,status="fixed",what="fixed: property=%s %s %s"%(p,h,w)))
K=[dict(property="C24",status="known",kind="short-frame",match="duration 0.05 with readout 0.1 and minimum exposure 0.01",what="validate accepts a frame duration with no room for the minimum exposure and readout (duration 0.05, readout 0.1, minimum exposure 0.01, exposure not given or equal to the minimum) and gives the minimum exposure, which does not fit in the frame"),
dict(property="C27",status="known",kind="uniqueid",match="unique ids of the xspress data said to be at /entry/xspress/uid, where there is nothing",what="the dataset table of an Xspress3 writer says that the unique ids of its data are at /entry/xspress/uid, but no such dataset is put in the file")]
json.dump(dict(findings=f+K),open("/verif/known_findings.json","w"),indent=1)
